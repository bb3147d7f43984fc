#!/usr/bin/env python3
"""Deterministic simulation checks.

    check.py setup                build everything for the current /repo
    check.py C01 [--tier quick|thorough] [--seed N]
    check.py replay FILE          replay a recorded violation

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer.
"""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
CXX = "clang++-18"
EIGEN = ["-isystem", "/usr/include/eigen3"]
TRACKER = ["C%02d" % i for i in range(1, 17)] + ["C20"]
SUT_FLAGS = ["-std=c++17", "-O1", "-fopenmp", "-fno-pie", "-fsanitize=thread",
             "-mllvm", "-tsan-instrument-func-entry-exit=0", "-I" + SIM, "-w"]
FLAGS = ["-std=c++17", "-O2", "-fno-pie", "-Wall", "-Wextra"]
PARTS = ["rt", "model", "spec", "gen", "checks", "main"]

# wall seconds for exploring, per property: (quick, thorough)
WALL = {p: (36, 600) for p in TRACKER + ["C17", "C18", "C19"]}
RULES = {
    "C01": "a seeded history (scans with lost, duplicated, delayed, reordered and false reports, blackouts, clock jumps, coverage cuts; 1-5 OpenMP workers; seeded preemption at memory accesses) executed once by one worker and once under a seeded schedule, all observable results compared after every operation; non-trivial: the parallel run forked workers and switched between them",
    "C02": "a seeded history with a burst of concurrent callers, every memory access, lock, fork and join of the repository's code under a seeded scheduler with a happens-before race detector and a checked heap; non-trivial: at least one context switch",
    "C03": "a seeded history followed by up to five concurrent calls; the recorded results must equal those of one sequential order that respects real time; non-trivial: at least one pair of calls overlapped in time",
    "C04": "seeded dense populations (dozens of mutually ambiguous tracks and reports, near duplicates) and concurrent bursts under a step budget polynomial in the sizes, with deadlock detection; non-trivial: a cluster of more than three tracks or at least one context switch",
    "C05": "a seeded faulty scan history; every scan's result is compared with exhaustive enumeration of all joint associations; non-trivial: some scan met existing tracks",
    "C06": "a seeded faulty history; every time step is compared with the motion model, and long steps with the same interval in pieces; non-trivial: some step moved existing tracks",
    "C07": "a seeded faulty scan history; the set of created tracks is compared with the reports left unexplained by exhaustive enumeration; non-trivial: a scan with reports met existing tracks",
    "C08": "a seeded faulty history with parallel births and concurrent callers; identities are followed through every operation; non-trivial: at least one birth",
    "C09": "a seeded faulty history under extreme parameters; the whole population is validated after every operation; non-trivial: at least one track existed",
    "C10": "a seeded faulty history (up to several hundred tracks); the index content and every query and listing are compared with the recorded tracks; non-trivial: a query met existing tracks",
    "C11": "a seeded faulty history with and without observations inserted; the tracker is compared bit for bit around each observation and the final tracks of both; non-trivial: an observation met existing tracks",
    "C12": "a seeded faulty history executed with permuted scans and other simulated heap layouts; non-trivial: some scan had two reports or the layout differed",
    "C13": "two far-apart worlds fed to one tracker and to two separate trackers under a seeded interleaving of their callers; non-trivial: both worlds held tracks",
    "C14": "a seeded history with sensing faults followed by 14 fault-free scans; tracks expected near each object and elsewhere are counted; non-trivial: at least one fault was injected",
    "C15": "a seeded faulty history with OSPA, GOSPA and density queries compared with independent definitions; non-trivial: a query met existing tracks",
    "C16": "a seeded faulty history in which a seeded allocation inside a seeded operation fails (once or repeatedly); non-trivial: the failing allocation was reached",
    "C17": "a seeded sequence of insertions, removals, searches, saves, loads, cuts and byte errors over several indexes and files of a simulated disk with seeded disk errors and failing allocations; a reference model of entries and files is compared after every operation; non-trivial: a fault struck or a load met a damaged file",
    "C18": "seeded clients issue calls, cancel them and give them up over one or two applications on a simulated event loop and worker pool with seeded durations, stalls, errors, late completions and rejections; every call is matched with what the tracker saw; non-trivial: requests overlapped and a fault struck",
    "C20": "one to six rounds in which one to four ranked assignment generators over seeded cost matrices (ties, near ties, forbidden elements, negative and very unequal costs) are used one after the other, in turns, by the workers of a parallel region or by overlapping callers, under a seeded schedule and with a seeded allocation failing; every draw and every solver result is compared with an independent ranking; non-trivial: a matrix with several rows and more than one assignment",
    "C19": "a seeded faulty history (lost, duplicated, stale and false reports, unsuitable arguments, damaged stored values) given through the Python module to one or two trackers, then two to four Python threads under a seeded scheduler of the interpreter lock and the tracker's locks; every result is compared with the C++ tracker called directly, and the overlapping calls with their possible orders; non-trivial: the scheduler switched between overlapping calls and tracks existed",
}
REAL = ["include/lmb.hpp", "include/cluster.hpp", "include/murty.hpp", "include/rlapjv.h", "include/gm.hpp", "include/gaussian.hpp", "include/target.hpp",
        "include/targettree.hpp", "include/RTree.h", "include/sensors.hpp", "include/models.hpp", "include/report.hpp", "include/bbox.hpp", "include/cf.hpp",
        "include/connectedcomponents.hpp", "include/statistics.hpp", "include/params.hpp", "Eigen", "libstdc++"]
STUB = ["OpenMP runtime (teams, tasks, critical sections, reductions) by sim/rt.cpp", "pthread mutexes and thread scheduling by sim/rt.cpp",
        "memory allocator by sim/rt.cpp", "std::random_device (seeded)", "sensor, objects and clock (seeded generator sim/gen.cpp)"]


STORE_FLAGS = ["-std=c++17", "-O1", "-g", "-fno-builtin", "-fsanitize=address", "-fno-omit-frame-pointer", "-w"]
STORE_WRAP = ("fopen fopen64 fclose fread fwrite fflush ferror feof clearerr fseek ftell rewind setvbuf fgetc getc fputc putc remove rename").split()

PY_FLAGS = ["-std=c++17", "-O1", "-DNDEBUG", "-fPIC", "-shared", "-w"]
PY_WRAP = ("pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock "
           "PyEval_SaveThread PyEval_RestoreThread PyEval_AcquireThread _Znwm _ZdlPv _ZdlPvm _ZNSt13random_device9_M_getvalEv").split()


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sources():
    out = []
    for d in ("include", "lmb"):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(r, f) for f in fs if f.endswith((".h", ".hpp", ".inc", ".cpp", ".py"))]
    return sorted(out)


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fd:
            h.update(fd.read())
    return h.hexdigest()[:24]


def cache_dir():
    d = os.path.join(HERE, ".build")
    try:
        os.makedirs(d, exist_ok=True)
        t = os.path.join(d, ".w%d" % os.getpid())
        open(t, "w").close()
        os.unlink(t)
        return d
    except OSError:
        return tempfile.mkdtemp(prefix="verif-build-")


def run_all(cmds, cwd=None):
    ps = [(c, subprocess.Popen(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c in cmds]
    bad = None
    for c, p in ps:
        out, _ = p.communicate()
        if p.returncode:
            bad = bad or (c, out)
    if bad:
        raise NoAnswer("command failed: %s\n%s" % (" ".join(bad[0]), bad[1][-4000:]))


def locked(fn):
    def g(*a):
        d = cache_dir()
        with open(os.path.join(d, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            prune(d)
            return fn(d, *a)
    return g


def prune(d, keep=12):
    es = sorted((os.path.join(d, e) for e in os.listdir(d) if len(e) == 24), key=os.path.getmtime, reverse=True)
    for e in es[keep:]:
        shutil.rmtree(e, ignore_errors=True)


def built(d, key, name, make):
    """The directory d/key with everything make(dir) puts there."""
    dst = os.path.join(d, key)
    if os.path.exists(os.path.join(dst, name)):
        os.utime(dst)
        return dst
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=d)
    try:
        make(tmp)
        shutil.rmtree(dst, ignore_errors=True)
        os.rename(tmp, dst)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dst


@locked
def build_tracker(d):
    hdr = [os.path.join(SIM, f) for f in sorted(os.listdir(SIM)) if f.endswith(".h")]
    cpp = [os.path.join(SIM, p + ".cpp") for p in PARTS]
    ksut = digest([f for f in sources() if "/include/" in f] + hdr + [os.path.join(SIM, "sut.cpp")], " ".join([CXX] + SUT_FLAGS + ["sut"]))
    ksim = digest(hdr + cpp, " ".join([CXX] + FLAGS + ["sim"]))
    jobs = []

    def make_sut(t):
        jobs.append([CXX] + SUT_FLAGS + ["-I" + os.path.join(REPO, "include")] + EIGEN + ["-c", os.path.join(SIM, "sut.cpp"), "-o", os.path.join(t, "sut.o")])

    def make_sim(t):
        for p in PARTS:
            jobs.append([CXX] + FLAGS + ["-c", os.path.join(SIM, p + ".cpp"), "-o", os.path.join(t, p + ".o")])
    dirs = []
    tmps = []
    try:
        for key, name, mk in ((ksut, "sut.o", make_sut), (ksim, "main.o", make_sim)):
            dst = os.path.join(d, key)
            if os.path.exists(os.path.join(dst, name)):
                os.utime(dst)
            else:
                t = tempfile.mkdtemp(prefix="tmp-", dir=d)
                tmps.append((t, dst))
                mk(t)
            dirs.append(dst)
        run_all(jobs)
        for t, dst in tmps:
            shutil.rmtree(dst, ignore_errors=True)
            os.rename(t, dst)
    finally:
        for t, _ in tmps:
            shutil.rmtree(t, ignore_errors=True)
    klink = digest([], ksut + ksim)

    def link(t):
        run_all([[CXX, "-no-pie", os.path.join(dirs[0], "sut.o")] + [os.path.join(dirs[1], p + ".o") for p in PARTS] + ["-o", os.path.join(t, "sim"), "-lpthread", "-ldl"]])
    return os.path.join(built(d, klink, "sim", link), "sim")


@locked
def build_store(d):
    src = os.path.join(SIM, "store.cpp")
    key = digest([f for f in sources() if "/include/" in f] + [src], " ".join([CXX] + STORE_FLAGS + STORE_WRAP))

    def make(t):
        run_all([[CXX] + STORE_FLAGS + ["-I" + os.path.join(REPO, "include"), src] + ["-Wl,--wrap=" + w for w in STORE_WRAP] + ["-o", os.path.join(t, "store")]])
    return os.path.join(built(d, key, "store", make), "store")


@locked
def build_pymod(d):
    src = os.path.join(SIM, "pymod.cpp")
    inc = subprocess.run([PYTHON, "-m", "pybind11", "--includes"], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    key = digest([f for f in sources() if f.endswith((".h", ".hpp", ".inc", ".cpp"))] + [src], " ".join([CXX] + PY_FLAGS + PY_WRAP + inc))

    def make(t):
        run_all([[CXX] + PY_FLAGS + ["-I" + os.path.join(REPO, "lmb"), "-I" + os.path.join(REPO, "include")] + EIGEN + inc + [src] + ["-Wl,--wrap=" + w for w in PY_WRAP] + ["-o", os.path.join(t, "pymod.so"), "-lpthread"]])
    return os.path.join(built(d, key, "pymod.so", make), "pymod.so")


def evidence(prop, tier, seed, cov, wall, violations, assumptions):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": assumptions,
                   "wall_s": round(wall, 2), "violations": violations}, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)


ASSUME = [
    "code is single-stepped at memory accesses, locks and OpenMP constructs of the repository's code as compiled by clang -O1; reorderings below sequential consistency are covered only by the race detector (C02)",
    "a clean run is evidence over the sampled executions, not a proof",
]


def check_tracker(prop, tier, seed):
    t0 = time.time()
    exe = build_tracker()
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="verif-run-")
    try:
        wall = WALL[prop][tier == "thorough"]
        out = os.path.join(work, prop)
        W = max(1, min(8, len(os.sched_getaffinity(0))))
        cmd = [exe, "explore", "--prop", prop, "--seed", str(seed), "--first", "0", "--runs", "1000000000", "--wall", str(wall), "--workers", str(W),
               "--tier", tier, "--out", out, "--minimise", "40" if tier == "quick" else "300", "--timeout", "120" if tier == "quick" else "400"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=wall + 700)
        if p.returncode not in (0, 1) or not os.path.exists(out + ".json"):
            raise NoAnswer("simulator ended with %d\n%s\n%s" % (p.returncode, p.stdout[-2000:], p.stderr[-2000:]))
        d = json.load(open(out + ".json"))
        if d["internal_lines"]:
            raise NoAnswer("simulator reported: %s" % d["internal_lines"][0])
        if d["runs"] == 0:
            raise NoAnswer("no run was executed")
        violated = bool(d["violation_lines"])
        dt = max(1e-6, d["wall"])
        cov = {
            "evaluations": d["runs"],
            "distinct_nontrivial": d["distinct_nontrivial"],
            "rule": RULES[prop] + "; distinct by the hash of the whole schedule and of all results",
            "samples": d["samples"][:3],
            "seed": seed, "run_seeds": "splitmix64(seed, index) for index 0..%d" % (d["runs"] - 1),
            "runs_per_hour": int(d["runs"] * 3600 / dt), "seeds_per_hour": int(d["runs"] * 3600 / dt),
            "simulated_seconds": d["simtime"], "simulated_steps": d["steps"],
            "faults_injected": d["faults"], "schedule_strategies": d["strategies"], "heap_layouts": d["heaps"], "workers": d["workers"], "concurrent_callers": d["callers"],
            "distinct_interleavings": d["distinct_schedules"], "distinct_outcomes": d["distinct_outcomes"],
            "interleaving_measure": "hash over every scheduling decision with its step number and every allocation address",
            "context_switches": d["switches"], "preemptions": d["preemptions"], "parallel_regions": d["parallel_regions"], "critical_sections": d["critical_sections"],
            "blocked_waits": d["blocked"], "max_threads": d["max_threads"], "allocations": d["allocations"],
            "determinism_reruns": d["rechecked"], "counters": d["counters"], "timeouts": d["timeouts"],
            "real_components": REAL if prop != "C20" else ["include/murty.hpp", "include/rlapjv.h", "Eigen", "libstdc++"], "stub_components": STUB if prop != "C20" else STUB[:3], "build_s": round(tb, 1), "explore_s": d["wall"],
        }
        if not violated:
            evidence(prop, tier, seed, cov, time.time() - t0, 0, ASSUME)
            if d["timeouts"] >= 3 and d["timeouts"] * 5 > d["runs"]:
                raise NoAnswer("%d of %d runs exceeded the time limit" % (d["timeouts"], d["runs"]))
            print("%s: held in %d runs (%d distinct non-trivial), seed %d" % (prop, d["runs"], d["distinct_nontrivial"], seed))
            return 0
        # a violation: the replay file must reproduce it in a fresh process
        msg, dst = confirmed(prop, [exe], out + ".replay")
        cov["violation"] = msg
        evidence(prop, tier, seed, cov, time.time() - t0, 1, ASSUME)
        print(msg)
        print("VIOLATION property=%s replay=%s" % (prop, dst))
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


def confirmed(prop, cmd, rep, args=()):
    """Replays rep in a fresh process; keeps it and returns (message, path)."""
    if not os.path.exists(rep):
        raise NoAnswer("a violation was seen but no replay file was written")
    q = subprocess.run(cmd + ["replay", rep] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    if q.returncode != 1:
        raise NoAnswer("the replay file does not reproduce the violation (%d): %s" % (q.returncode, q.stdout[-500:]))
    dst = os.path.join(HERE, "evidence", "%s-%s.replay" % (prop, digest([rep])[:12]))
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    shutil.copy(rep, dst)
    return q.stdout.strip()[:1000], dst


PYTHON = "/usr/bin/python3" if os.path.exists("/usr/bin/python3") else sys.executable
ENGINES = {
    "C17": {
        "cmd": lambda: [build_store()], "args": list,
        "distinct": "; distinct by the hash of all results, file contents and faults met",
        "real": ["include/RTree.h (index, file stream, save and load)"],
        "stub": ["C stdio by a simulated disk (sim/store.cpp)", "operator new (seeded failures)"],
        "note": ["entries are pointer sized, as the tracker's are", "files are written and read through the C stdio calls named in check.py; a clean run is evidence over the sampled histories, not a proof"],
        "time": "the index has no clock; its history is counted in operations",
    },
    "C18": {
        "cmd": lambda: [PYTHON, os.path.join(SIM, "appsim.py")], "args": lambda: ["--repo", REPO],
        "distinct": "; distinct by the hash of the time-stamped order of all requests, job starts, calls, completions and answers",
        "real": ["lmb/application.py", "asyncio tasks, futures and primitives of the Python library"],
        "stub": ["event loop clock and waiting, worker pool (sim/appsim.py)", "tracker and extension modules (a recorder)", "matplotlib"],
        "note": ["the tracker behind the facade is a recorder; a clean run is evidence over the sampled schedules, not a proof"],
        "time": "virtual time of the event loop",
    },
    "C19": {
        "cmd": lambda: [PYTHON, os.path.join(SIM, "pysim.py")], "args": lambda: ["--so", build_pymod()],
        "distinct": "; distinct by the hash of the schedule and of all results",
        "real": ["lmb/lmb.cpp", "lmb/cf.cpp", "include/*.hpp", "the Python interpreter", "pybind11", "numpy", "pickle, copy"],
        "stub": ["hand-over of the interpreter lock and of the tracker's locks (sim/pymod.cpp)", "placement of tracks in memory", "std::random_device", "OpenMP (one worker)", "sensor, objects and clock (seeded generator)"],
        "note": ["calls are switched at lock operations, at releases of the interpreter lock, at allocations and between lines of Python; memory accesses of the tracker are interleaved in C02 and C03",
                 "a clean run is evidence over the sampled histories and schedules, not a proof"],
        "time": "time stamps of the scans and predictions",
    },
}


def check_engine(prop, tier, seed):
    t0 = time.time()
    E = ENGINES[prop]
    exe, args = E["cmd"](), E["args"]()
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="verif-run-")
    try:
        wall = WALL[prop][tier == "thorough"]
        out = os.path.join(work, prop)
        W = max(1, min(8, len(os.sched_getaffinity(0))))
        p = subprocess.run(exe + ["explore"] + args + ["--seed", str(seed), "--runs", "1000000000", "--wall", str(wall), "--workers", str(W), "--tier", tier, "--out", out,
                           "--minimise", "40" if tier == "quick" else "300"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=wall + 700)
        if p.returncode not in (0, 1) or not os.path.exists(out + ".json"):
            raise NoAnswer("simulator ended with %d\n%s\n%s" % (p.returncode, p.stdout[-2000:], p.stderr[-2000:]))
        d = json.load(open(out + ".json"))
        if d.get("nondeterministic") or d.get("internal"):
            if not d["violation"]:
                raise NoAnswer("no sound answer: %s" % (d.get("internal") or "a run did not repeat exactly"))
        if d["runs"] == 0:
            raise NoAnswer("no run was executed")
        dt = max(1e-6, d["wall"])
        cov = {
            "evaluations": d["runs"], "distinct_nontrivial": d["distinct_nontrivial"],
            "rule": RULES[prop] + E["distinct"],
            "samples": d["samples"], "seed": seed, "run_seeds": "splitmix64(seed, index) for index 0..%d" % (d["runs"] - 1),
            "runs_per_hour": int(d["runs"] * 3600 / dt), "seeds_per_hour": int(d["runs"] * 3600 / dt),
            "simulated_seconds": d.get("simtime", 0), "simulated_time_note": E["time"],
            "faults_injected": d["faults"], "counters": d["counters"], "distinct_states": d["distinct"], "determinism_reruns": d["rechecked"],
            "real_components": E["real"], "stub_components": E["stub"],
            "build_s": round(tb, 1), "explore_s": d["wall"],
        }
        if not d["violation"]:
            evidence(prop, tier, seed, cov, time.time() - t0, 0, E["note"])
            print("%s: held in %d runs (%d distinct non-trivial), seed %d" % (prop, d["runs"], d["distinct_nontrivial"], seed))
            return 0
        msg, dst = confirmed(prop, exe, out + ".replay", args)
        cov["violation"] = msg
        evidence(prop, tier, seed, cov, time.time() - t0, 1, E["note"])
        print(msg)
        print("VIOLATION property=%s replay=%s" % (prop, dst))
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay_engine(path):
    head = open(path, errors="replace").read(4000)
    for line in head.splitlines():
        if line.startswith("#"):
            continue
        if line.startswith("store "):
            return [build_store()], []
        if line.startswith("app "):
            return ENGINES["C18"]["cmd"](), ENGINES["C18"]["args"]()
        if line.startswith("py "):
            return ENGINES["C19"]["cmd"](), ENGINES["C19"]["args"]()
        return [build_tracker()], []
    raise NoAnswer("not a replay file: " + path)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        if a[0] == "setup":
            build_tracker()
            build_store()
            build_pymod()
            return 0
        if a[0] == "replay":
            exe, args = replay_engine(a[1])
            return subprocess.run(exe + ["replay", a[1]] + args).returncode
        if a[0] in TRACKER:
            return check_tracker(a[0], tier, seed)
        if a[0] in ENGINES:
            return check_engine(a[0], tier, seed)
        raise NoAnswer("unknown property " + a[0])
    except (NoAnswer, subprocess.TimeoutExpired, OSError) as x:
        log("check.py: no answer:", x)
        return 2


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Builds and runs the check of one property.

  run.py ID                  quick or thorough tier (VERIF_TIER), seeded by VERIF_SEED
  run.py ID --thorough       thorough tier
  run.py ID --replay FILE    replays one failing case

exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (e.g. it does not compile)
"""
import glob
import json
import os
import subprocess
import sys
import time
import shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PBT_REPO", "/repo")  # overridden only while developing
HARNESS = os.path.join(VERIF, "harness")

UBSAN = "bounds,alignment,return,unreachable,object-size,bool,enum,shift,integer-divide-by-zero,vla-bound,pointer-overflow"
ASAN = ["-fsanitize=address", "-fsanitize=" + UBSAN, "-fno-sanitize-recover=all"]
BASE = ["-std=gnu++14", "-g1", "-w", "-I" + REPO, "-I" + HARNESS]
# the schedule-driven checks: instrumented like for ThreadSanitizer, but linked with our own runtime (sched.cpp)
SCHED = {"C02", "C07", "C24", "C25", "C28", "C33"}
SCHED_FLAGS = ["-fsanitize=thread", "-DPBT_SCHED"]
WRAPS = ["__atomic_load_16", "__atomic_store_16", "__atomic_exchange_16", "__atomic_compare_exchange_16",
         "__atomic_load", "__atomic_store", "__atomic_exchange", "__atomic_compare_exchange"]
PARTS = 8  # a harness is compiled in parts, see pbt.hpp
# how many times the numbers of cases given in a harness its quick tier runs: as many as take some 15 s
QUICK = {"C01": 60, "C02": 5, "C03": 2.5, "C04": 2, "C06": 2, "C08": 12, "C09": 3, "C10": 8, "C11": 12, "C12": 3, "C13": 60, "C14": 4, "C15": 30,
         "C16": 12, "C17": 30, "C18": 30, "C19": 8, "C20": 2, "C21": 15, "C22": 4, "C23": 2, "C24": 12, "C25": 4, "C27": 12, "C28": 20, "C30": 5, "C31": 4, "C33": 20}
PROGRAMS = {"C26", "C32"}  # cases are programs
NO_FUZZ = SCHED | PROGRAMS
FUZZ_SECONDS = int(os.environ.get("PBT_FUZZ_SECONDS", "150"))


def say(*a):
    print(*a, flush=True)


def known_keys(pid):
    keys = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            w = line.split()
            if len(w) > 2 and w[0] == "known:" and w[1] == "property=" + pid and w[2].startswith("key="):
                keys.append(w[2][4:])
    return keys


def call(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_all(jobs):
    """jobs: [(cmd, what)]; returns False after printing what failed"""
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: (j[1], call(j[0])), jobs))
    ok = True
    for what, r in res:
        if r.returncode:
            ok = False
            say("compiling", what, "failed:")
            say("\n".join(r.stdout.splitlines()[:40]))
    return ok


def sources(pid):
    return sorted(glob.glob(os.path.join(HARNESS, pid + ".cpp")) + glob.glob(os.path.join(HARNESS, pid + "_*.cpp")))


def build(pid, out, fuzz=False):
    os.makedirs(out, exist_ok=True)
    objs, jobs = [], []
    if fuzz:
        cc, flags = "clang++-18" if shutil.which("clang++-18") else "clang++", ["-O1", "-fsanitize=fuzzer-no-link,address", "-DPBT_LIBFUZZER"]
    elif pid in SCHED:
        cc, flags = "g++", ["-O1"] + SCHED_FLAGS
    else:
        cc, flags = "g++", ["-Og"] + ASAN
    tag = "fuzz-" if fuzz else ""
    for s in sources(pid):
        for part in range(PARTS):
            o = os.path.join(out, tag + os.path.basename(s)[:-4] + ".%d.o" % part)
            objs.append(o)
            jobs.append(([cc] + BASE + flags + ["-DPBT_PARTS=%d" % PARTS, "-DPBT_PART=%d" % part, "-c", s, "-o", o], os.path.basename(s)))
    if pid in SCHED:
        s = os.path.join(HARNESS, "sched.cpp")
        o = os.path.join(out, "sched.o")
        objs.append(o)
        jobs.append(([cc] + BASE + ["-O2", "-c", s, "-o", o], "sched.cpp"))
    if not compile_all(jobs):
        return None
    exe = os.path.join(out, tag + "check")
    if fuzz:
        link = [cc, "-fsanitize=fuzzer,address"] + objs + ["-o", exe, "-latomic", "-pthread"]
    elif pid in SCHED:
        # sched.o provides what -fsanitize=thread asks for: it is not linked with libtsan
        link = [cc] + objs + ["-Wl,--wrap=" + w for w in WRAPS] + ["-o", exe, "-latomic", "-pthread", "-ldl"]
    else:
        link = [cc] + ASAN + objs + ["-o", exe, "-latomic", "-pthread"]
    if not compile_all([(link, "(linking)")]):
        return None
    return exe


def fuzz_campaign(pid, out, exe, env, evidence, replaydir, seed):
    fexe = build(pid, out, fuzz=True)
    if not fexe:
        say("the coverage-guided build failed; its campaign is skipped")
        return 0
    corpus = os.path.join(out, "corpus")
    shutil.rmtree(corpus, ignore_errors=True)
    procs = []
    fenv = dict(env, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1")
    for w in range(8):
        d = os.path.join(corpus, str(w))
        os.makedirs(d)
        log = open(os.path.join(d, "..", "log%d" % w), "w")
        procs.append(subprocess.Popen([fexe, "-seed=%d" % (seed * 8 + w + 1), "-max_total_time=%d" % FUZZ_SECONDS, "-max_len=1500", "-timeout=30",
                                       "-rss_limit_mb=3000", "-print_final_stats=1", "-artifact_prefix=%s/crash%d-" % (corpus, w), d],
                                      stdout=log, stderr=subprocess.STDOUT, env=fenv, cwd=corpus))
    for p in procs:
        p.wait()
    units = cov = 0
    for w in range(8):
        for line in open(os.path.join(corpus, "log%d" % w), errors="replace"):
            if "stat::number_of_executed_units" in line:
                units += int(line.split()[-1])
            if " cov: " in line:
                cov = max(cov, int(line.split(" cov: ")[1].split()[0]))
    crashes = sorted(glob.glob(os.path.join(corpus, "crash*")))
    rc = 0
    for c in crashes:
        r = call([exe, "--confirm-bytes", c, "--replaydir", replaydir], env=env)
        say(r.stdout.rstrip())
        if r.returncode == 1:
            rc = 1
            break
    try:
        e = json.load(open(evidence))
        e["coverage"]["coverage_guided"] = {"engine": "libFuzzer", "executed": units, "edges": cov, "processes": 8,
                                            "seconds": FUZZ_SECONDS, "artifacts": len(crashes)}
        e["violations"] = e.get("violations", 0) + rc
        e["coverage"]["evaluations"] += units
        json.dump(e, open(evidence, "w"), indent=1)
    except (OSError, ValueError, KeyError):
        pass
    say("%s: coverage-guided: %d executions, %d artifacts" % (pid, units, len(crashes)))
    shutil.rmtree(corpus, ignore_errors=True)
    return rc


def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or (os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in sys.argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    out = os.path.join(os.environ.get("PBT_BUILD", os.path.join(VERIF, "build")), pid)
    replaydir = os.path.join(VERIF, "replays")
    evidence = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(replaydir, exist_ok=True)
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    t0 = time.time()
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None

    if pid in PROGRAMS:
        cmd = [sys.executable, os.path.join(HARNESS, pid + ".py"), "--repo", REPO, "--build", out, "--seed", str(seed), "--evidence", evidence, "--replaydir", replaydir]
        if thorough:
            cmd.append("--thorough")
        if replay:
            cmd += ["--replay", replay]
        return subprocess.run(cmd, env=env).returncode

    exe = build(pid, out)
    if not exe:
        return 2
    say("%s: built in %.1f s" % (pid, time.time() - t0))
    if replay:
        return subprocess.run([exe, "--replay", replay, "--replaydir", replaydir], env=env).returncode
    cmd = [exe, "--seed", str(seed), "--evidence", evidence, "--replaydir", replaydir]
    if thorough:
        cmd.append("--thorough")
    for k in known_keys(pid):
        cmd += ["--known", k]
    if not thorough:
        env["PBT_SCALE"] = str(QUICK.get(pid, 1) * float(env.get("PBT_SCALE", "1")))
    rc = subprocess.run(cmd, env=env).returncode
    if rc not in (0, 1):
        say("%s: the driver ended with %d" % (pid, rc))
        return 2
    if rc == 0 and thorough and pid not in NO_FUZZ:
        rc = fuzz_campaign(pid, out, exe, env, evidence, replaydir, seed)
    return rc


if __name__ == "__main__":
    sys.exit(main())

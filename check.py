#!/usr/bin/env python3
"""Build and run the check of one property:  check.py ID [--replay FILE]

Everything is compiled from /repo's working tree. Exit 0: held on everything explored.
Exit 1 with a VIOLATION line: broken. Anything else is an error of the check.
"""
import json, os, subprocess, sys, time, shutil, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("STRPP_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS

GXX = ["g++", "-std=c++17", "-g1", "-w", "-DHAVE_PTHREADS", "-pthread", "-fno-omit-frame-pointer"]
ASAN = ["-O1", "-fsanitize=address,bounds,return,integer-divide-by-zero", "-fno-sanitize-recover=all"]
TSAN = ["-O1", "-fsanitize=thread"]
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=0:detect_stack_use_after_return=0:quarantine_size_mb=32:allocator_may_return_null=0:max_allocation_size_mb=2000"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
ENV["TSAN_OPTIONS"] = "exitcode=99:halt_on_error=1:report_signal_unsafe=0:history_size=4"
ENV["LC_ALL"] = "C"

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build(pid, cfg, fuzz=False):
    out = os.path.join(VERIF, "build", pid + ("-fuzz" if fuzz else ""))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "rx"), "-I" + os.path.join(VERIF, "harness")]
    san = TSAN if cfg.get("san") == "tsan" else ASAN
    flags = GXX + san + inc + cfg.get("cflags", [])
    if fuzz:
        flags = ["clang++", "-std=c++17", "-g1", "-w", "-O1", "-DHAVE_PTHREADS", "-pthread", "-DPBT_FUZZER",
                 "-fsanitize=fuzzer-no-link,address"] + inc + cfg.get("cflags", [])
    sources = [os.path.join(VERIF, "harness", d) for d in [cfg["driver"]] + cfg.get("extra", [])] + [os.path.join(REPO, s) for s in cfg.get("repo", [])]
    objs, cmds = [], []
    for s in sources:
        o = os.path.join(out, os.path.basename(s) + ".o")
        objs.append(o)
        cmds.append(flags + ["-c", s, "-o", o])
    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(run, cmds))
    for c, r in zip(cmds, results):
        if r.returncode != 0:
            print("BUILD FAILED: " + " ".join(c)); print(r.stdout[-4000:])
            sys.exit(2)
    exe = os.path.join(out, "check")
    link = flags[:1] + ["-pthread"] + [f for f in flags if f.startswith("-fsanitize")] + objs + ["-o", exe]
    if fuzz:
        link = ["clang++", "-pthread", "-fsanitize=fuzzer,address"] + objs + ["-o", exe]
    r = run(link)
    if r.returncode != 0:
        print("LINK FAILED: " + " ".join(link)); print(r.stdout[-4000:])
        sys.exit(2)
    for o in objs:
        os.unlink(o)
    return exe

def fuzz_stage(pid, cfg, seconds, seed):
    """Coverage-guided search with the same decoder. Returns (executions, artifact or None)."""
    exe = build(pid, cfg, fuzz=True)
    work = os.path.join(VERIF, "build", pid + "-fuzz", "work")
    os.makedirs(work + "/corpus"); os.makedirs(work + "/art")
    env = dict(ENV); env["ASAN_OPTIONS"] += ":handle_abort=1"
    procs = []
    for j in range(8):
        log = open(f"{work}/log.{j}", "w")
        procs.append(subprocess.Popen([exe, f"-seed={(seed*8+j) % (2**31-2) + 1}", f"-max_total_time={seconds}", "-max_len=1200",
            "-timeout=25", "-rss_limit_mb=3500", "-print_final_stats=1", "-reload=1", f"-artifact_prefix={work}/art/{j}-", work + "/corpus"],
            stdout=log, stderr=subprocess.STDOUT, env=env))
    for p in procs:
        try: p.wait(seconds + 120)
        except subprocess.TimeoutExpired: p.kill()
    execs = 0
    for j in range(8):
        for line in open(f"{work}/log.{j}", errors="replace"):
            if "stat::number_of_executed_units" in line:
                execs += int(line.split()[-1])
    art = sorted(glob.glob(work + "/art/*"))
    return execs, art

def main():
    pid = sys.argv[1]
    if pid == "--setup":        # nothing is prebuilt: each check compiles from /repo's current tree
        r = run(["g++", "--version"])
        print(r.stdout.splitlines()[0])
        sys.exit(r.returncode)
    cfg = CHECKS[pid]
    if "asan" in cfg: ENV["ASAN_OPTIONS"] += ":" + cfg["asan"]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    exe = build(pid, cfg)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        r = subprocess.run([exe, "--replay", sys.argv[3]], env=ENV)
        sys.exit(r.returncode)
    q = cfg["quick"] if tier == "quick" else cfg["thorough"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    stats = os.path.join(VERIF, "build", pid, "stats.json")
    replay = os.path.join(VERIF, "replays", f"{pid}-{tier}-{seed}.txt")
    if os.path.exists(replay): os.unlink(replay)
    cmd = [exe, "--seed", str(seed), "--cases", str(q["cases"]), "--seconds", str(q["seconds"]), "--size", str(q.get("size", 20)),
           "--workers", str(cfg.get("workers", 8)), "--out", stats, "--report", replay]
    r = run(cmd, env=ENV)
    print(r.stdout[-12000:])
    violated = r.returncode == 1 and os.path.exists(replay)
    if r.returncode not in (0, 1) or (r.returncode == 1 and not violated):
        print(f"the driver of {pid} ended with {r.returncode}")
        sys.exit(2)
    try:
        st = json.load(open(stats))
    except Exception as e:
        st = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "labels": {}, "samples": [], "violations": 1}
    extra = {}
    if tier == "thorough" and not violated and cfg.get("fuzz"):
        execs, arts = fuzz_stage(pid, cfg, cfg["fuzz"], seed)
        extra["coverage_guided_executions"] = execs
        for a in arts:
            rr = run([exe, "--bytes", a, "--report", replay, "--size", str(q.get("size", 20))], env=ENV)
            print(rr.stdout[-6000:])
            if rr.returncode == 1 and os.path.exists(replay):
                violated = True
                break
        st["evaluations"] += execs
        shutil.rmtree(os.path.join(VERIF, "build", pid + "-fuzz"), ignore_errors=True)
    known = [l for l in r.stdout.splitlines() if l.startswith("KNOWN-FINDING:")]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": dict({"evaluations": st["evaluations"], "distinct_nontrivial": st["distinct_nontrivial"], "rule": st["rule"],
                       "samples": st["samples"], "labels": st["labels"], "known_findings": known,
                       "inconclusive": st.get("inconclusive", 0)}, **extra),
          "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violated else 0}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if violated:
        print(f"VIOLATION property={pid} replay={replay}")
        sys.exit(1)
    print(f"{pid} held on {st['evaluations']} cases ({st['distinct_nontrivial']} distinct non-trivial), {time.time()-t0:.1f}s")
    sys.exit(0)

if __name__ == "__main__":
    main()

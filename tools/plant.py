#!/usr/bin/env python3
"""Turn a planted-bug specification into seeded/<id>/ once it is confirmed in a scratch copy of /repo.

plant.py SPEC...      each SPEC is a file <id>.txt:
  property: C01 [also C02 ...]
  needs: ...
  breaks: ...
  file: include/strval.h
  <<<<
  old text (must occur exactly once)
  ====
  new text
  >>>>
  (more file/edit sections)
  demo:
  C++ program, exit 0 when the property holds
Confirms: builds, the stable tests pass, demo exits 0 without and nonzero with it; then runs the check of the property.
"""
import sys, os, re, subprocess, json, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "08d42e7"
DEMO_SH = """#!/bin/sh
d=$(dirname "$0")
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -w %s-DHAVE_PTHREADS -pthread -Iinclude -Irx "$d/demo.cpp" %s -o "$t/demo" || exit 1
timeout -s KILL 100 "$t/demo" >"$t/out" 2>&1
r=$?
tail -20 "$t/out"
exit $r
"""
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def in_repo(scratch, cmd): return sh(["unshare", "-rm", "bash", "-c", f"mount --bind {scratch} /repo && cd /repo && {cmd}"])
def parse(path):
    t = open(path).read()
    head, demo = t.split("\ndemo:\n", 1)
    spec = {"edits": [], "demo": demo, "id": os.path.basename(path)[:-4], "flags": "", "libs": "rx/librx.a libstrpp.a"}
    for k in ("property", "needs", "breaks", "flags", "libs"):
        m = re.search(rf"^{k}: (.*)$", head, re.M)
        if m: spec[k] = m[1]
    for part in re.split(r"^file: ", head, flags=re.M)[1:]:
        f = part.split("\n", 1)[0].strip()
        for m in re.finditer(r"^<<<<\n(.*?)^====\n(.*?)^>>>>$", part, re.M | re.S):
            spec["edits"].append((f, m[1], m[2]))
    return spec
def plant(path):
    s = parse(path); out = [s["id"] + " " + s["property"]]
    scratch = tempfile.mkdtemp(prefix="plant-"); os.rmdir(scratch)
    sh(["cp", "-a", "/repo", scratch])
    work = tempfile.mkdtemp(prefix="plantw-")
    try:
        open(work + "/demo.cpp", "w").write(s["demo"])
        flags = s["flags"] + " " if s["flags"] else ""
        open(work + "/demo.sh", "w").write(DEMO_SH % (flags, s["libs"])); os.chmod(work + "/demo.sh", 0o755)
        r = in_repo(scratch, f"bash /opt/vp/build.sh >/dev/null 2>&1; sh {work}/demo.sh")
        if r.returncode != 0: return "\n".join(out + ["DEMO FAILS ON THE CLEAN TREE", r.stdout[-1500:]])
        for f, old, new in s["edits"]:
            p = scratch + "/" + f; t = open(p).read()
            if t.count(old) != 1: return "\n".join(out + [f"EDIT OCCURS {t.count(old)} TIMES: {old}"])
            open(p, "w").write(t.replace(old, new))
        d = sh(["git", "-C", scratch, "diff"]).stdout
        open(work + "/patch.diff", "w").write(d)
        # lines removed must be the original's
        for f in {e[0] for e in s["edits"]}:
            mine = ""
            for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))?", sh(["git", "-C", scratch, "diff", "-U0", f]).stdout, re.M):
                a, n = int(h[1]), int(h[2] or 1)
                if n == 0: continue
                for l in sh(["git", "-C", scratch, "blame", "-s", "-L", f"{a},{a+n-1}", "HEAD", "--", f]).stdout.splitlines():
                    if not l.startswith("^"): mine += "\n   " + l
            if mine: out.append(f"NOTE: {f} changes lines of a fix: {mine}")
        r = in_repo(scratch, f"bash /opt/vp/test.sh /repo/_build/plant.json")
        try: res = json.load(open(scratch + "/_build/plant.json"))
        except Exception: return "\n".join(out + ["NO TEST RESULT", r.stdout[-2000:]])
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        missing = stable - set(res["passed"])
        if missing: return "\n".join(out + [f"TESTS FAIL ({len(missing)}): {sorted(missing)[:5]}", r.stdout[-1500:] if not res["passed"] else ""])
        r = in_repo(scratch, f"sh {work}/demo.sh")
        if r.returncode == 0: return "\n".join(out + ["DEMO PASSES WITH THE CHANGE"])
        out.append("demo: %d %s" % (r.returncode, r.stdout.strip()[-150:].replace("\n", " | ")))
        dst = f"{VERIF}/seeded/{s['id']}"; os.makedirs(dst, exist_ok=True)
        for f in ("demo.cpp", "demo.sh", "patch.diff"): shutil.copy(work + "/" + f, dst)
        prop = s["property"].split()[0]
        caught = []
        for p in s["property"].split():
            if p == "also": continue
            v = work + "/v"; sh(["cp", "-a", VERIF, v])
            r = sh(["timeout", "900", "python3", "check.py", p], cwd=v, env=dict(os.environ, STRPP_REPO=scratch))
            what = [l for l in r.stdout.splitlines() if l.startswith("property ")]
            lines = r.stdout.splitlines()
            msg = next((lines[i+1] for i, l in enumerate(lines[:-1]) if l.startswith("property")), "")
            out.append(f"{p}: exit {r.returncode} {'CAUGHT' if r.returncode == 1 else 'MISSED'} {msg[:160]}")
            if r.returncode == 2: out.append(r.stdout[-1500:])
            open(f"/tmp/plant-{s['id']}-{p}.log", "w").write(r.stdout)
            shutil.rmtree(v)
        json.dump({"property": prop, "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        return "\n".join(out)
    finally:
        shutil.rmtree(scratch, ignore_errors=True); shutil.rmtree(work, ignore_errors=True)
if __name__ == "__main__":
    with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
        for r in ex.map(plant, sys.argv[1:]): print(r + "\n", flush=True)

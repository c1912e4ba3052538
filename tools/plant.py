#!/usr/bin/env python3
"""plant.py DIR... : validates planted bugs (applies to /repo, builds, tests, demo, check, reverts)."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def tests():
    sh("bash /opt/vp/test.sh /tmp/plant.json")
    r = json.load(open("/tmp/plant.json")); b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in b if t not in set(r["passed"])]
for d in sys.argv[1:]:
    d = os.path.abspath(d); m = json.load(open(d + "/meta.json")); pid = m["property"]
    if sh("git -C /repo status --porcelain -uno").stdout.strip(): sys.exit("/repo not clean")
    a = sh("git -C /repo apply --check %s/patch.diff" % d)
    if a.returncode: print(os.path.basename(d), "DOES NOT APPLY", a.stdout[:300]); continue
    sh("git -C /repo apply %s/patch.diff" % d)
    try:
        miss = tests()
        dm = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
        t0 = time.time(); ck = sh("python3 %s/tools/check.py %s" % (V, pid)); dt = time.time() - t0
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    d0 = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    ok = not miss and dm.returncode != 0 and d0.returncode == 0
    caught = ck.returncode == 1 and ("VIOLATION property=%s" % pid) in ck.stdout
    print("%-22s %s tests-missing=%d demo(bug)=%d demo(clean)=%d  %s %s (%.0f s, rc %d)" % (os.path.basename(d), "VALID" if ok else "INVALID", len(miss), dm.returncode, d0.returncode, pid, "CAUGHT" if caught else "MISSED", dt, ck.returncode))
    if not ok: print(dm.stdout[-300:], d0.stdout[-300:], miss[:3])
    if caught: print("   ", [l for l in ck.stdout.splitlines() if "FAILURE" in l or "facet" in l][:1])
    elif ck.returncode != 0: print(ck.stdout[-500:])

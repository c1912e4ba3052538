#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seconds N] : decides one property on /repo's working tree.

Exit 0: held on everything explored.  Exit 1 and 'VIOLATION property=ID replay=PATH': broken.
Anything else (3): the check itself could not run."""
import argparse, json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import build as B

# seconds of exploration in the quick tier (default) and the thorough tier
QUICK = 16
QUICK_BY = {"C23": 30, "C27": 30, "C37": 25, "C40": 30, "C41": 30, "C43": 25}
THOROUGH = 600


def known(pid):
    """Known findings (never written at run time): lines 'KNOWN property=ID key=KEY text'."""
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                out.append(line[len("known: property=%s " % pid):])
    return out


def evidence(pid, tier, seed, t0, res, assumptions):
    cov = {"evaluations": int(res.get("evaluations", 0)), "distinct_nontrivial": int(res.get("distinct_nontrivial", 0)),
           "rule": res.get("rule") or "Cases are choice sequences drawn from VERIF_SEED, per facet: " + "; ".join(
               "%s: %s" % (f["facet"], f["rule"]) for f in res.get("facets", [])),
           "samples": res.get("samples", [])[:12],
           "facets": [{k: f[k] for k in f if k != "rule"} for f in res.get("facets", [])]}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": int(res.get("violations", 0)), "assumptions": assumptions}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


# C44 replays the histories of the other checks and looks for growth: every harness but those whose cases run other programs
NO_LEAKS = {"C08", "C31", "C40", "C43"}
# facets whose expected fatal error is the call that would give the file back
WITHOUT = {"C33": ["full"]}


def leaks(a, seed, secs, rdir):
    import concurrent.futures as cf
    ids = [p.split("_")[0].upper() for p in B.props()]
    ids = [p for p in ids if p not in NO_LEAKS]
    ok, log = B.build(ids)
    if not ok:
        i = log.find("FAILED")
        sys.stdout.write(log[max(i, 0):][:4000] + "\nBUILD FAILED\n")
        return None, {}
    env = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS"):
        env.pop(k, None)

    def one(p):
        out = os.path.join(rdir, "C44-%s.result.json" % p)
        if os.path.exists(out):
            os.unlink(out)
        cmd = [B.binary(p), "--leaks", "--property", "C44-" + p, "--seed", str(seed), "--seconds", str(secs), "--out", out,
               "--replay-dir", rdir, "--workers", "2", "--shrink-seconds", "15"]
        for f in WITHOUT.get(p, []):
            cmd += ["--without", f]
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        res = json.load(open(out)) if os.path.exists(out) else {}
        if os.path.exists(out):
            os.unlink(out)
        return p, r.returncode, r.stdout, res

    tot = {"evaluations": 0, "distinct_nontrivial": 0, "violations": 0, "replay": "", "facets": [], "samples": []}
    rc = 0
    with cf.ThreadPoolExecutor(max(1, a.workers // 2)) as ex:
        for p, code, text, res in ex.map(one, ids):
            tot["evaluations"] += res.get("evaluations", 0)
            tot["distinct_nontrivial"] += res.get("distinct_nontrivial", 0)
            for f in res.get("facets", []):
                tot["facets"].append(dict(f, facet=p + "." + f["facet"]))
            if res.get("samples") and len(tot["samples"]) < 12:
                x = res["samples"][0]
                tot["samples"].append(dict(x, facet=p + "." + x["facet"]) if isinstance(x, dict) and "facet" in x else x)
            if code == 1 and res.get("violations"):
                sys.stdout.write(text[-2500:])
                tot["violations"] += res["violations"]
                tot["replay"] = tot["replay"] or res.get("replay")
                rc = 1
            elif code:
                sys.stdout.write("%s: status %d\n%s" % (p, code, text[-1500:]))
                rc = rc or 3
    tot["rule"] = ("Cases of the harness of every other listed property, each repeated seven times with the same choices; a call that ended in a "
                   "fatal error is left out of the repetitions. Non-trivial: non-trivial for its own facet and every repetition completed.")
    print("C44: %d evaluations, %d distinct non-trivial, %d harnesses" % (tot["evaluations"], tot["distinct_nontrivial"], len(ids)))
    return rc, tot


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    secs = a.seconds or (THOROUGH if a.tier == "thorough" else QUICK_BY.get(a.id, QUICK))
    rdir = os.path.join(V, "replays")
    os.makedirs(rdir, exist_ok=True)
    if a.id == "C44":
        rc, res = leaks(a, seed, a.seconds or (60 if a.tier == "thorough" else 6), rdir)
        if rc is None:
            return 3
        evidence(a.id, a.tier, seed, t0, res, ["memory the library keeps for later use (samplers, log streams) stops growing after two repetitions",
                                               "the sanitized build behaves like the product build (same sources, -DNDEBUG -mavx2)"])
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (a.id, res.get("replay")))
        return rc
    pyprop = [f for f in os.listdir(os.path.join(V, "harness/props")) if f.endswith(".py") and f.split("_")[0].upper() == a.id]
    outf = os.path.join(rdir, a.id + ".result.json")
    if os.path.exists(outf):
        os.unlink(outf)
    if pyprop:
        py = "/opt/vp/pyenv/bin/python"
        if not os.path.exists(py):
            py = sys.executable
        cmd = [py, os.path.join(V, "harness/props", pyprop[0]), "--seed", str(seed), "--seconds", str(secs), "--out", outf,
               "--replay-dir", rdir, "--workers", str(a.workers)]
    else:
        ok, log = B.build([a.id])
        if not ok:
            i = log.find("FAILED")
            sys.stdout.write(log[max(i, 0):][:4000] + "\nBUILD FAILED\n")
            return 3
        cmd = [B.binary(a.id), "--property", a.id, "--seed", str(seed), "--seconds", str(secs), "--out", outf,
               "--replay-dir", rdir, "--workers", str(a.workers)]
    env = dict(os.environ)
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS"):
        env.pop(k, None)
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["OMP_NUM_THREADS"] = "1"
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    sys.stdout.write(r.stdout[-6000:])
    res = json.load(open(outf)) if os.path.exists(outf) else {}
    evidence(a.id, a.tier, seed, t0, res, ["the reference model in harness/props for this property is right",
                                           "the sanitized build behaves like the product build (same sources, -DNDEBUG -mavx2)"])
    for k in known(a.id):
        print("KNOWN-FINDING: property=%s %s" % (a.id, k))
    if r.returncode == 1 and res.get("violations"):
        print("VIOLATION property=%s replay=%s" % (a.id, res.get("replay")))
        return 1
    if r.returncode == 0:
        return 0
    print("check error: status %d" % r.returncode)
    return 3


sys.exit(main())

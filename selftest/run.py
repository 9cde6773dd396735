#!/usr/bin/env python3
"""run.py [ID-PREFIX...]: applies each entry of mutants.py to a scratch copy of /repo and runs (a) the repository's
stable tests, in a mount and network namespace where the copy is /repo, and (b) the check of its property.
--tests-only / --checks-only; --all-checks runs every check; results in $OUT (default /tmp/selftest.json)."""
import json
import os
import shutil
import subprocess
import sys
import time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mutants import M
OUT = os.environ.get("OUT", "/tmp/selftest.json")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
args = [a for a in sys.argv[1:] if not a.startswith("--")]
flags = [a for a in sys.argv[1:] if a.startswith("--")]
res = json.load(open(OUT)) if os.path.exists(OUT) else {}


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


for mu in M:
    if args and not any(mu["id"].startswith(a) for a in args):
        continue
    d = "/tmp/selftest.%s" % mu["id"]
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    try:
        bad = None
        for f, old, new in mu["edits"]:
            t = open(d + "/" + f).read()
            if t.count(old) < 1 or (t.count(old) != mu["count"]):
                bad = "edit matches %d times in %s" % (t.count(old), f)
                break
            open(d + "/" + f, "w").write(t.replace(old, new))
        r = res.setdefault(mu["id"], {})
        if bad:
            r["tests"] = bad
            print(mu["id"], bad, flush=True)
            continue
        r["diff"] = sh("git diff", cwd=d).stdout
        if "--checks-only" not in flags:
            o = d + ".json"
            p = sh("timeout 300 unshare -mn bash -c 'mount --bind %s /repo && ip link set lo up; cd /repo && bash /opt/vp/test.sh %s'" % (d, o))
            try:
                passed = set(json.load(open(o))["passed"])
                miss = STABLE - passed
                r["tests"] = "pass" if not miss else "FAIL %d: %s" % (len(miss), sorted(miss)[:3])
                if len(miss) > 60:
                    r["tests"] += p.stdout[-600:]
                os.unlink(o)
            except Exception as e:
                r["tests"] = "no result %s %s" % (e, p.stdout[-500:])
        if "--tests-only" not in flags:
            props = [mu["prop"]] if "--all-checks" not in flags else ["P%02d" % i for i in range(1, 33)]
            for pr in props:
                t0 = time.time()
                p = sh("timeout 900 python3 check.py %s" % pr, cwd=os.path.dirname(HERE), env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick", VERIF_RESULTS="/tmp/selftest-results"))
                v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
                r[pr] = {"rc": p.returncode, "v": v[:2], "s": round(time.time() - t0, 1), "tail": p.stdout[-400:] if p.returncode not in (0, 1) else ""}
                print("%-22s tests=%-8s %s rc=%d %ss %s" % (mu["id"], str(r.get("tests"))[:60], pr, p.returncode, r[pr]["s"], (v or [""])[0][:160] + r[pr]["tail"][-200:]), flush=True)
        else:
            print(mu["id"], r["tests"], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        json.dump(res, open(OUT, "w"), indent=1)

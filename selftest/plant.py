#!/usr/bin/env python3
"""plant.py [ID-PREFIX...]: makes /verif/seeded/<id>/ from mutants.py and demos/<id>.{c,py}, keeping only those whose
demonstration passes on /repo and fails on a scratch copy with the change (both built by build.sh, the copy being
bind-mounted on /repo)."""
import glob
import json
import os
import shutil
import subprocess
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mutants import M
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
FLAGS = {}
for f in glob.glob(HERE + "/demos/*.c"):
    l = open(f).readline()
    if l.startswith("// flags:"):
        FLAGS[os.path.basename(f)[:-2]] = l[9:].strip()
CSH = """#!/bin/sh
# run in the source tree after the build: compiles the demonstration with the library's sources and runs it
here=$(cd "$(dirname "$0")" && pwd)
src=$(pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
%s -g -w %s -include _build/config.h -I. -Ifstrm -I"$here" -o "$t/demo" "$here/demo.c" fstrm/*.c libmy/my_queue_mb.c libmy/my_queue_mutex.c -lpthread || exit 2
cd "$t" && timeout -k 5 200 ./demo
"""
PSH = """#!/bin/sh
# run in the source tree after the build: drives the built programs
here=$(cd "$(dirname "$0")" && pwd)
src=$(pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
cd "$t" && PYTHONDONTWRITEBYTECODE=1 SRC="$src" timeout -k 5 250 python3 "$here/demo.py"
"""


def run_in(tree, demo):
    return subprocess.run("unshare -mn bash -c 'mount --bind %s /repo && ip link set lo up; cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1 && cd /repo && timeout 300 %s/demo.sh'" % (tree, demo),
                          shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def main():
    want = sys.argv[1:]
    for mu in M:
        mid = mu["id"]
        if want and not any(mid.startswith(a) for a in want):
            continue
        src = [f for f in (HERE + "/demos/%s.c" % mid, HERE + "/demos/%s.py" % mid) if os.path.exists(f)]
        if not src:
            continue
        d, base = "/tmp/plant.%s" % mid, "/tmp/plant.base.%s" % mid
        tmp = "/tmp/plant.demo.%s" % mid
        for x in (d, base, tmp):
            shutil.rmtree(x, ignore_errors=True)
        os.makedirs(tmp)
        try:
            subprocess.run(["cp", "-a", "/repo", d], check=True)
            subprocess.run(["cp", "-a", "/repo", base], check=True)
            bad = None
            for f, old, new in mu["edits"]:
                t = open(d + "/" + f).read()
                if t.count(old) != mu["count"]:
                    bad = "edit does not match"
                open(d + "/" + f, "w").write(t.replace(old, new))
            if bad:
                print(mid, bad)
                continue
            diff = subprocess.run("git diff", cwd=d, shell=True, stdout=subprocess.PIPE, text=True).stdout
            if src[0].endswith(".c"):
                shutil.copy(src[0], tmp + "/demo.c")
                for hf in glob.glob(HERE + "/demos/*.h"):
                    if os.path.basename(hf) == "demo.h" or os.path.basename(hf) in open(src[0]).read():
                        shutil.copy(hf, tmp)
                fl = FLAGS.get(mid, "-O1")
                cc = "gcc"
                if fl.startswith("clang "):
                    cc, fl = "clang", fl[6:]
                open(tmp + "/demo.sh", "w").write(CSH % (cc, fl))
            else:
                shutil.copy(src[0], tmp + "/demo.py")
                shutil.copy(HERE + "/demos/fsdemo.py", tmp)
                if "Submitter" in open(src[0]).read():
                    shutil.copy(HERE + "/demos/sub.c", tmp)
                open(tmp + "/demo.sh", "w").write(PSH)
            os.chmod(tmp + "/demo.sh", 0o755)
            good, broken = run_in(base, tmp), run_in(d, tmp)
            print("%-22s unchanged rc=%d  changed rc=%d  %s%s" % (mid, good.returncode, broken.returncode,
                  good.stdout[-200:] if good.returncode else "", broken.stdout.strip()[-160:].replace("\n", " | ")), flush=True)
            if good.returncode == 0 and broken.returncode not in (0, 2):
                out = SEEDED + "/" + mid
                shutil.rmtree(out, ignore_errors=True)
                shutil.copytree(tmp, out)
                open(out + "/patch.diff", "w").write(diff)
                json.dump({"property": mu["prop"], "needs": mu["needs"], "what_it_breaks": mu["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        finally:
            for x in (d, base, tmp):
                shutil.rmtree(x, ignore_errors=True)


main()

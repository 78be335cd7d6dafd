"""plant.py SPEC.py [ID...]: turn edits into planted bugs under /verif/seeded and confirm them in a scratch copy of /repo.

SPEC.py defines BUGS = [dict(id=, property=, edits=[(file, old, new)], demo=<python source>, needs=, breaks=)]."""
import json
import os
import shutil
import subprocess
import sys

S = "/tmp/plant"
R = S + "/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def prepare():
    if os.path.isdir(S):
        shutil.rmtree(S)
    os.makedirs(S)
    sh("cp -a /repo %s" % R)
    sh("git -C %s checkout -q -- . && git -C %s clean -qfd" % (R, R))
    for f in os.listdir("/opt/vp"):
        t = open("/opt/vp/" + f).read().replace("/opt/vp/", S + "/").replace('"/repo"', '"%s"' % R)
        t = t.replace("/repo/", R + "/").replace("cd /repo", "cd " + R)
        if f == "env.sh":
            t += "\nexport PYTHONPATH=%s\n" % R
        open(S + "/" + f, "w").write(t)


def demo(d):
    return sh("bash %s/demo.sh" % d, cwd=R, env=dict(os.environ, PLANT_REPO=R), timeout=300)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = sys.argv[2:]
    prepare()
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for b in spec["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = "/verif/seeded/" + b["id"]
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/env.sh\nD=$(cd "$(dirname "$0")" && pwd)\n'
                                        'W=$(mktemp -d) || exit 3\ntrap \'rm -rf "$W"\' EXIT\n'
                                        'PYTHONPATH="$PWD" SCRATCH="$W" "$PY" "$D/demo.py"\n')
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        sh("git -C %s checkout -q -- ." % R)
        r0 = demo(d)
        for f, old, new in b["edits"]:
            p = R + "/" + f
            t = open(p).read()
            if t.count(old) != 1:
                print(b["id"], "EDIT NOT UNIQUE", f, t.count(old))
            open(p, "w").write(t.replace(old, new, 1))
        diff = sh("git -C %s diff" % R).stdout
        open(d + "/patch.diff", "w").write(diff)
        r1 = demo(d)
        bl = sh("bash %s/build.sh" % S)
        sh("bash %s/test.sh %s/t.json" % (S, S))
        try:
            missing = stable - set(json.load(open(S + "/t.json"))["passed"])
        except Exception as e:
            missing = {str(e)}
        sh("git -C %s checkout -q -- ." % R)
        ok = r0.returncode == 0 and r1.returncode != 0 and bl.returncode == 0 and not missing
        print(b["id"], "OK" if ok else "BAD", "demo", r0.returncode, r1.returncode, "build", bl.returncode, "failing", sorted(missing), flush=True)
        if r0.returncode:
            print(r0.stderr[-1500:])
        else:
            print("   ", (r1.stderr.strip().splitlines() or r1.stdout.strip().splitlines() or [""])[-1][:300])
    shutil.rmtree(S)


main()

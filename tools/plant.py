#!/usr/bin/env python3
"""Plant a bug: plant.py DIR  where DIR (under /verif/seeded) holds meta.json and demo files; uses the working-tree change
currently made in /repo as the patch when 'patch.diff' is missing.  Confirms build, stable tests and demonstration."""
import json, os, subprocess, sys
R = "/repo"; d = os.path.abspath(sys.argv[1]); p = os.path.join(d, "patch.diff")


def sh(c, t=900):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, cwd=R)


def stable():
    if sh("bash /opt/vp/build.sh").returncode:
        return ["build failed"]
    sh("bash /opt/vp/test.sh /tmp/plant.json")
    b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/plant.json"))
    return [t for t in b["stable"] if t not in o["passed"]]


if not os.path.exists(p):
    diff = sh("git diff").stdout
    if not diff.strip():
        sys.exit("no change in /repo")
    open(p, "w").write(diff)
    sh("git checkout -- .")
assert not sh("git status --porcelain").stdout.strip(), "repo not clean"
sh("bash /opt/vp/build.sh")
a = sh("bash %s/demo.sh" % d, 300)
print("demo unchanged:", a.returncode)
if a.returncode:
    print(a.stdout[-1500:])
try:
    r = sh("git apply " + p); assert r.returncode == 0, r.stdout
    print("stable missing:", stable())
    b = sh("bash %s/demo.sh" % d, 300)
    print("demo patched:", b.returncode, b.stdout[-300:].strip())
    m = json.load(open(d + "/meta.json"))
    c = subprocess.run(["python3", "run.py", m["property"]], cwd="/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("check", m["property"], c.returncode, c.stdout[-600:])
finally:
    sh("git checkout -- .")
    sh("bash /opt/vp/build.sh")

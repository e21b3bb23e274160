#!/usr/bin/env python3
"""plant.py ID: validates /verif/seeded/ID against /repo (patch applies, builds, stable tests pass, demo discriminates)
and runs the property's quick check on it. plant.py --save ID: first takes the patch from /repo's working tree."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
save = "--save" in sys.argv
nocheck = "--nocheck" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean():
    for d in os.listdir("/tmp"):
        if d.startswith("Grazer_testdir_"):
            shutil.rmtree("/tmp/" + d, ignore_errors=True)
def stable():
    sh("bash /opt/vp/test.sh /tmp/plant_o.json")
    o = json.load(open("/tmp/plant_o.json"))
    clean()
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(o["passed"]))
for i in ids:
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    if save:
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        sh("git -C /repo checkout -- .")
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    sh("bash /opt/vp/build.sh")
    r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode:
        print(i, "patch does not apply", a.stdout); continue
    try:
        b = sh("bash /opt/vp/build.sh")
        lost = stable() if b.returncode == 0 else []
        r1 = sh("bash %s/demo.sh" % d, cwd="/repo")
        print("%-28s build=%d lost=%s demo: clean=%d patched=%d" % (i, b.returncode, lost, r0.returncode, r1.returncode))
        if r0.returncode: print(r0.stdout[-1500:])
        if b.returncode: print(b.stdout[-1500:])
        if not nocheck:
            c = sh("python3 %s/check.py %s --tier quick" % (V, meta["property"]))
            print("   %s rc=%d %s" % (meta["property"], c.returncode, c.stdout.strip().splitlines()[-1][:300]))
    finally:
        sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")

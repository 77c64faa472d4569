#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy: plant.py ID...   (development only; nothing here is run by a check)

For each /verif/seeded/ID: the patch applies to /repo's HEAD, builds, passes the stable tests, and demo.sh exits 0
without and nonzero with it. --new ID reads edits (JSON [[file, old, new], ...]) on stdin and writes patch.diff first.
--nodemo/--notest skip steps."""
import json, os, subprocess, sys, shutil
W = os.environ.get("PLANT_DIR", "/tmp/plant"); R = W + "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def setup():
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(R):
        subprocess.check_call(["git", "clone", "-q", "/repo", R])
        subprocess.check_call("cd %s && git submodule update --init -q 2>/dev/null; true" % R, shell=True)
    sh("cd %s && git fetch -q origin && git checkout -q --detach origin/HEAD && git reset -q --hard && git clean -fdq -e _build" % R)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    assert sh("cd %s && git checkout -q --detach %s" % (R, head)).returncode == 0
    for f in ("build.sh", "test.sh"):
        open(W + "/" + f, "w").write(open("/opt/vp/" + f).read().replace("/repo", R).replace("/opt/vp/build.sh", W + "/build.sh"))
def build(): return sh("bash %s/build.sh" % W)
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]; opt = set(a for a in sys.argv[1:] if a.startswith("--"))
    setup()
    for i in args:
        D = os.environ.get("SEED_DIR", "/verif/seeded") + "/" + i; os.makedirs(D, exist_ok=True)
        if "--new" in opt:
            for f, o, n in json.load(sys.stdin):
                p = R + "/" + f; s = open(p).read()
                assert s.count(o) == 1, (f, o, s.count(o)); open(p, "w").write(s.replace(o, n))
            open(D + "/patch.diff", "w").write(sh("cd %s && git diff" % R).stdout)
            sh("cd %s && git checkout -q -- ." % R)
        b = build()
        if b.returncode: print(i, "clean build fails", b.stdout[-2000:]); return
        if "--nodemo" not in opt:
            d = sh("cd %s && timeout 300 bash %s/demo.sh" % (R, D)); print(i, "demo unchanged:", d.returncode, d.stdout[-300:], d.stderr[-300:], flush=True)
        a = sh("cd %s && git apply %s/patch.diff" % (R, D)); assert a.returncode == 0, a.stderr
        b = build()
        if b.returncode: print(i, "patched build fails", b.stdout[-2000:]); continue
        if "--nodemo" not in opt:
            for k in range(3):
                d = sh("cd %s && timeout 300 bash %s/demo.sh" % (R, D)); print(i, "demo patched:", d.returncode, d.stdout[-300:], d.stderr[-300:], flush=True)
        if "--notest" not in opt:
            for k in range(2):
                sh("unshare -Urn sh -c 'ip link set lo up; exec bash %s/test.sh %s/t.json'" % (W, W)); t = sh("python3 /verif/tools/cmp.py %s/t.json" % W); print(i, "tests:", t.stdout.strip(), flush=True)
        sh("cd %s && git checkout -q -- ." % R)
main()

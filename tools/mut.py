#!/usr/bin/env python3
"""Sensitivity of the checks: apply mutants one by one to a scratch clone of the library, run the property's check until it reports.
usage: mut.py FILE [SECS] [WORKERS] [ID...]    FILE holds blocks:
@@ ID PROP[,PROP...] FILE
old text
==
new text
(further "@@ + FILE" blocks belong to the same mutant)
Scratch: /tmp/mut (clone), /tmp/mutb (build). Not used by any registered check."""
import sys, os, re, subprocess, time, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("REPO", "/repo")
R, B, D = os.environ.get("MUT", "/tmp/mut"), os.environ.get("MUT", "/tmp/mut") + "b", os.environ.get("MUT", "/tmp/mut") + "d"
def load(path):
    ms = []
    for blk in re.split(r"(?m)^@@ ", open(path).read())[1:]:
        head, body = blk.split("\n", 1)
        h = head.split()
        old, new = re.split(r"(?m)^==\n", body, maxsplit=1)
        e = (h[-1], old.rstrip("\n"), new.rstrip("\n"))
        if h[0] == "+": ms[-1][2].append(e)
        else: ms.append((h[0], h[1].split(","), [e]))
    return ms
def main():
    f, secs, w = sys.argv[1], float(sys.argv[2]) if len(sys.argv) > 2 else 20, int(sys.argv[3]) if len(sys.argv) > 3 else 8
    ids = sys.argv[4:]
    if not os.path.exists(R): subprocess.check_call(["git", "clone", "-q", SRC, R])
    subprocess.check_call(["git", "-C", R, "fetch", "-q", SRC, "HEAD"]); subprocess.check_call(["git", "-C", R, "reset", "-q", "--hard", "FETCH_HEAD"])
    os.makedirs(D, exist_ok=True)
    for mid, props, edits in load(f):
        if ids and mid not in ids and props[0] not in ids: continue
        orig = {}
        ok = True
        for path, old, new in edits:
            p = R + "/" + path
            s = open(p).read()
            orig.setdefault(p, s)
            if s.count(old) != 1: print(f"{mid}: text found {s.count(old)} times in {path}", flush=True); ok = False; break
            open(p, "w").write(s.replace(old, new))
        for prop in props if ok else []:
            b = os.path.basename(glob.glob(f"{V}/scenarios/c{prop[1:]}_*.cpp")[0])[:-4]
            t0 = time.time()
            r = subprocess.run(["make", "-s", "-j8", "REPO=" + R, "B=" + B, B + "/" + b], cwd=V, capture_output=True, text=True)
            if r.returncode: print(f"{mid} {prop}: does not build\n" + "\n".join([l for l in r.stderr.split("\n") if "error" in l][:5]), flush=True); continue
            t1 = time.time()
            for x in glob.glob(f"{D}/*"): os.remove(x)
            ps = [subprocess.Popen([B + "/" + b, "explore", "--prop", prop, "--seed", os.environ.get("SEED", "1"), "--worker", str(i), "--nworkers", str(w), "--secs", str(secs), "--out", f"{D}/{i}"], stdout=open(f"{D}/{i}.log", "w"), stderr=subprocess.STDOUT) for i in range(w)]
            hit = None
            while any(q.poll() is None for q in ps) and time.time() - t1 < secs + 60:
                time.sleep(.1)
                if [q for q in ps if q.poll() not in (None, 0)]: break
            dt = time.time() - t1
            for q in ps:
                if q.poll() is None: q.kill()
                q.wait()
            for i in range(w):
                m = re.search(r"RESULT violation.*", open(f"{D}/{i}.log", errors="replace").read())
                if m: hit = m.group(0); break
            if hit:
                k = re.search(r"kind=(\S+).*?scenario=(\S+).*?msg=(.{0,90})", hit)
                print(f"{mid} {prop}: CAUGHT {dt:.1f}s {k.group(1)} {k.group(2)}: {k.group(3)}", flush=True)
            else: print(f"{mid} {prop}: MISSED ({secs}s, exit codes {[q.returncode for q in ps]})", flush=True)
        for p, s in orig.items(): open(p, "w").write(s)
main()

#!/usr/bin/env python3
"""Runs the deterministic-simulation check of one property against /repo's current working tree.

usage: run.py PROPERTY [quick|thorough]      decide a property (exit 0 held / 1 violated / 2 no answer)
       run.py --build                        build everything
       run.py --replay FILE [--trace]        reproduce a violation exactly
       run.py --selftest                     determinism of the simulator on every scenario binary
"""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CPUS = max(2, min(8, os.cpu_count() or 8))
T0 = time.time()
sys.path.insert(0, os.path.join(V, "tools"))
import meta


def tree_hash():
    h = hashlib.sha256()
    for root in (REPO + "/include", REPO + "/src", V + "/sim", V + "/scenarios"):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    with open(V + "/Makefile", "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:16]


def build(targets):
    """Builds in a directory named by the contents of the sources, so nothing stale can be used."""
    base = V + "/build/ci"
    os.makedirs(base, exist_ok=True)
    with open(base + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        b = "build/ci/" + tree_hash()
        others = sorted((d for d in glob.glob(base + "/*/") if not d.rstrip("/").endswith(b)), key=os.path.getmtime)
        for d in others[:-1]:
            shutil.rmtree(d, ignore_errors=True)
        r = subprocess.run(["make", "-s", "-j%d" % CPUS, "REPO=" + REPO, "B=" + b] + [b + "/" + t for t in targets],
                           cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-6000:])
            print("check cannot answer: the build failed")
            sys.exit(2)
    return os.path.join(V, b)


def binaries(prop):
    return sorted(os.path.basename(f)[:-4] for f in glob.glob(V + "/scenarios/%s_*.cpp" % prop.lower()))


def run(cmd, timeout, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return -99, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")


def symbolise(binary, text):
    addrs = sorted(set(re.findall(r"\b0x4[0-9a-f]{5}\b", text)))
    if not addrs:
        return text
    _, out = run(["addr2line", "-e", binary, "-f", "-C", "-i", "-p"] + addrs, 120)
    # -i prints several lines per address; take the first line of each by asking again one by one only when needed
    names = {}
    for a in addrs[:400]:
        _, o = run(["addr2line", "-e", binary, "-f", "-C", "-p", a], 60)
        names[a] = o.strip().split("\n")[0][:200]
    return re.sub(r"\b0x4[0-9a-f]{5}\b", lambda m: m.group(0) + " <" + names.get(m.group(0), "?") + ">", text)


def parse_result(out):
    m = re.search(r"RESULT violation kind=(\S+) hash=(\S+) scenario=(\S+) seed=(\S+) msg=(.*)", out)
    return m.groups() if m else None


def known_findings():
    kf = []
    p = V + "/KNOWN_FINDINGS.txt"
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        m = re.match(r"finding: property=(\S+) scenario=(\S+) kind=(\S+) match=/(.*?)/ (.*)", l)
        if m:
            kf.append(m.groups())
    return kf


def gate(binary, prop, seed):
    """The same seeds in two fresh processes must give identical histories and schedules."""
    outs = []
    for env in ({}, {"VERIF_PAD": "x" * 3000}):
        e = dict(os.environ)
        e.update(env)
        outs.append(run([binary, "hashes", "--prop", prop, "--seed", str(seed), "--runs", "60", "--secs", "60"], 120, env=e)[1])
    return outs[0] == outs[1] and bool(outs[0].strip()), outs[0].count("\n")


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    bins = binaries(prop)
    if not bins:
        print("no scenarios for", prop)
        return 2
    b = build(bins)
    built = time.time() - T0
    out = os.path.join(V, "build", "out", prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    budget = (meta.QUICK_SECS if tier == "quick" else meta.THOROUGH_SECS)
    if os.environ.get("VERIF_SECS"):
        budget = float(os.environ["VERIF_SECS"])
    agg, viols, problems, hashes_ok, gate_runs, worker_wall = {}, [], [], True, 0, 0.0
    for bn in bins:
        binary = os.path.join(b, bn)
        secs = budget / len(bins)
        procs = []
        for w in range(CPUS):
            o = "%s/%s.%d" % (out, bn, w)
            procs.append((o, subprocess.Popen([binary, "explore", "--prop", prop, "--seed", str(seed), "--worker", str(w), "--nworkers", str(CPUS),
                                               "--secs", str(secs), "--out", o], stdout=open(o + ".log", "w"), stderr=subprocess.STDOUT)))
        t1, dead = time.time(), None
        while any(p.poll() is None for _, p in procs):
            time.sleep(0.05)
            if dead is None and any(p.poll() not in (None, 0) for _, p in procs):
                dead = time.time() + 3
            if (dead and time.time() > dead) or time.time() - t1 > secs * 3 + 180:
                for _, p in procs:
                    if p.poll() is None:
                        p.kill()
        worker_wall += time.time() - t1
        for o, p in procs:
            p.wait()
            if os.path.exists(o + ".stats"):
                j = json.load(open(o + ".stats"))
                for k in ("runs", "nontrivial", "steps", "switches", "sim_seconds", "distinct_schedules", "distinct_histories"):
                    agg[k] = agg.get(k, 0) + j[k]
                for m in ("faults", "probes", "scenarios"):
                    d = agg.setdefault(m, {})
                    for k, v in j[m].items():
                        d[k] = d.get(k, 0) + v
            if p.returncode == 77 and os.path.exists(o + ".viol"):
                viols.append((bn, o + ".viol", open(o + ".log", errors="replace").read()))
            elif p.returncode not in (0, -9):
                problems.append("worker %s ended with %d: %s" % (o, p.returncode, open(o + ".log", errors="replace").read()[-800:]))
            elif p.returncode == -9 and not dead:
                problems.append("worker %s stopped making progress or was killed" % o)
        if viols:
            break
        g, n = gate(binary, prop, seed)
        hashes_ok &= g
        gate_runs += n

    rc, reported = 0, []
    if viols:
        # the smallest recorded violation first
        viols.sort(key=lambda v: os.path.getsize(v[1]))
        seen = set()
        for bn, f, log in viols:
            binary = os.path.join(b, bn)
            r0 = parse_result(log)
            if not r0 or (r0[0], r0[2]) in seen:
                continue
            code, o = run([binary, "replay", f], 300)
            r = parse_result(o)
            if not r or r[0] != r0[0]:
                problems.append("violation %s did not reproduce: %s" % (r0, o[-300:]))
                continue
            seen.add((r0[0], r0[2]))
            mini = f[:-5] + ".min"
            run([binary, "minimise", f, mini, "--secs", "15" if tier == "quick" else "60"], 240)
            use = f
            if os.path.exists(mini):
                _, o2 = run([binary, "replay", mini], 300)
                r2 = parse_result(o2)
                want = re.search(r"^hash (\S+)", open(mini).read(), re.M)
                if r2 and r2[0] == r0[0] and want and want.group(1) == r2[1]:
                    use, r = mini, r2
            rd = os.path.join(V, "replays")
            os.makedirs(rd, exist_ok=True)
            dst = os.path.join(rd, "%s-%s-%s-%s.replay" % (prop, r[2], r[0], r[3]))
            shutil.copyfile(use, dst)
            _, tr = run([binary, "replay", dst, "--trace"], 300)
            lines = tr.split("\n")
            if len(lines) > 400:
                lines = ["... (%d lines omitted; run.py --replay FILE --trace shows all)" % (len(lines) - 400)] + lines[-400:]
            txt = symbolise(binary, "\n".join(lines))
            open(dst + ".trace", "w").write(txt)
            known = [k for k in known_findings() if k[0] == prop and k[1] == r[2] and k[2] == r[0] and re.search(k[3], r[4])]
            if known:
                print("KNOWN-FINDING: property=%s %s" % (prop, known[0][4]))
                continue
            print("VIOLATION property=%s replay=%s" % (prop, dst))
            print("  scenario %s: %s: %s" % (r[2], r[0], r[4]))
            reported.append({"scenario": r[2], "kind": r[0], "message": r[4], "seed": r[3], "hash": r[1], "replay": dst})
            rc = 1
            break
    if problems and rc == 0:
        rc = 2
        for p in problems:
            print("problem:", p)
    samples = []
    for bn in bins[:2]:
        binary = os.path.join(b, bn)
        _, o = run([binary, "hashes", "--prop", prop, "--seed", str(seed), "--runs", "2", "--secs", "20"], 60)
        for l in o.strip().split("\n")[:2]:
            f = l.split()
            if len(f) == 4 and not viols:
                _, tr = run([binary, "one", "--scenario", f[1], "--seed", f[0], "--trace"], 60)
                t = tr.strip().split("\n")
                samples.append({"scenario": f[1], "seed": f[0], "history_hash": f[2], "schedule_hash": f[3],
                                "result": t[-1], "events": len(t), "trace_head": t[:12], "trace_tail": t[-8:]})
    runs = agg.get("runs", 0)
    m = meta.PROPS.get(prop, {})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": min(agg.get("distinct_schedules", 0), agg.get("nontrivial", 0)),
            "rule": "one evaluation = one complete simulated run drawn from one seed (program, schedule, delays and faults all chosen by the seed); "
                    "non-trivial = more than one thread switch and not marked trivial by the scenario; distinct = distinct hash of the whole "
                    "sequence of (thread, operation) scheduling steps, counted per worker process over disjoint seeds",
            "samples": samples or [{"note": "see violation"}] + reported,
            "distinct_histories": agg.get("distinct_histories", 0),
            "scheduling_steps": agg.get("steps", 0),
            "thread_switches": agg.get("switches", 0),
            "simulated_seconds": round(agg.get("sim_seconds", 0), 3),
            "runs_per_hour": int(runs / worker_wall * 3600) if worker_wall else 0,
            "workers": CPUS,
            "explore_wall_s": round(worker_wall, 1),
            "build_wall_s": round(built, 1),
            "faults_injected": agg.get("faults", {}),
            "probes_reached": agg.get("probes", {}),
            "runs_per_scenario": agg.get("scenarios", {}),
            "determinism_gate": {"identical": hashes_ok, "runs_compared_across_processes": gate_runs},
            "real_components": m.get("real", meta.REAL),
            "stubbed_components": m.get("stub", meta.STUB),
            "problems": problems,
            "reported": reported,
        },
        "assumptions": meta.ASSUME + m.get("assume", []),
        "wall_s": round(time.time() - T0, 1),
        "violations": len(reported),
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)
    if rc == 0 and not hashes_ok:
        print("note: the determinism gate differed between two processes")
    print("%s %s: %s; %d runs (%d distinct schedules, %.0f simulated s) in %.1f s" %
          (prop, tier, {0: "held on everything explored", 1: "VIOLATED", 2: "no answer"}[rc], runs, agg.get("distinct_schedules", 0),
           agg.get("sim_seconds", 0), time.time() - T0))
    return rc


def main(a):
    if a and a[0] == "--build":
        build([os.path.basename(f)[:-4] for f in glob.glob(V + "/scenarios/c*.cpp")])
        return 0
    if a and a[0] == "--replay":
        prop = re.search(r"^prop (\S+)", open(a[1]).read(), re.M).group(1)
        scn = re.search(r"^scenario (\S+)", open(a[1]).read(), re.M).group(1)
        bins = binaries(prop)
        b = build(bins)
        for bn in bins:
            binary = os.path.join(b, bn)
            if " %s " % scn in run([binary, "list"], 60)[1]:
                c, o = run([binary, "replay", a[1]] + a[2:], 600)
                print(symbolise(binary, o))
                return 1 if parse_result(o) else 0
        return 2
    if a and a[0] == "--selftest":
        names = [os.path.basename(f)[:-4] for f in sorted(glob.glob(V + "/scenarios/c*.cpp"))]
        b = build(names)
        bad = 0
        for n in names:
            g, k = gate(os.path.join(b, n), n[:3].upper(), 7)
            print(n, "deterministic" if g else "DIFFERS", k, "runs")
            bad += not g
        return 1 if bad else 0
    if not a:
        print(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], tier if tier in ("quick", "thorough") else "quick")


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

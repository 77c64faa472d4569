#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, the scenarios present and tools/meta.py."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import meta
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in meta.NA:
        na.append({"property": i, "reason": meta.NA[i]})
    elif glob.glob(V + "/scenarios/%s_*.cpp" % i.lower()):
        m = meta.PROPS.get(i, {})
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "technique": "deterministic simulation with fault injection: seeded schedules, delays and faults over the real library code, "
                                    + m.get("oracle", "invariants during each run and checks over its history"),
                       "level": "exploration",
                       "level_note": "Seeded random exploration of executions of the real code in a simulated process; no proof of absence. " + " ".join(m.get("assume", []))})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "python3 run.py --build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seams are the compiler's ThreadSanitizer instrumentation, the C library symbols and the kernel interface, all replaced at link time. "
                    "Commits in /repo are repairs (fix:) only; see KNOWN_FINDINGS.txt."}, open(V + "/MANIFEST.json", "w"), indent=1)

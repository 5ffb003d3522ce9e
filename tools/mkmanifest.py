#!/usr/bin/env python3
"""Writes MANIFEST.json. Properties with a play are claimed; the others are listed with the reason."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
    "C20": "printing and parsing are pure functions of one string in one thread: no schedule, clock, I/O or fault can change the outcome, so there is nothing for a simulator to decide",
    "C21": "option resolution is a pure function of the arguments and the environment at start-up: no schedule, clock, I/O or fault takes part",
}
reg = set()
for f in os.listdir(V + "/sim/cmd/drive"):
    reg |= set(re.findall(r'reg\("(C\d\d)"', open(V + "/sim/cmd/drive/" + f).read()))
NOTE = {}
exec(open(V + "/tools/notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in reg:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "technique": "deterministic simulation with fault injection (seeded search over schemas, schedules and fault sequences; reference-model oracle)",
                       "level": "exploration", "level_note": NOTE.get(i, "Seeded search, not exhaustive; decided on the simulated database models for the statements the generator writes.")})
    else:
        na.append({"property": i, "reason": "no check yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none in /repo: every hook is added at build time by a `go -overlay` of the standard library and of one harness test file (std/patch.py, harness/), and the drivers are replaced by `-modfile`",
               "enable": "python3 tools/build.py OUTDIR builds /repo's working tree with the overlay; a normal build of /repo never sees it", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decides one property of /repo's current tree by deterministic simulation.

Exit 0: held on everything explored. Exit 1: a VIOLATION line names the replay file. Exit 2: the machinery failed.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
import build  # noqa: E402

# A quick check runs this many scenarios (about 45 s on 8 idle cores), so that one seed is one set of scenarios on any machine;
# QUICK_S is where it stops if the machine is much slower.
QUICK_N = {"C01": 11500, "C02": 6000, "C03": 22000, "C04": 17000, "C05": 14000, "C06": 8000, "C07": 16000, "C08": 15000, "C09": 21000, "C10": 17000,
           "C11": 17000, "C12": 19000, "C13": 22000, "C14": 13000, "C15": 24000, "C16": 32000, "C17": 48000, "C18": 11000, "C19": 5000}
QUICK_S = float(os.environ.get("VERIF_QUICK_S", "150"))
THOROUGH_S = float(os.environ.get("VERIF_THOROUGH_S", "720"))

STUBS = ["database servers (MySQL, PostgreSQL, CockroachDB, Spanner): executable models of their catalogues, DDL and information schemas (sim/db)",
         "the wire drivers lib/pq, go-sql-driver/mysql and go-sql-spanner: stubs behind database/sql/driver (stubs/, sim/drv)",
         "operating system calls of the files and standard streams: real calls on a scratch directory behind a fault-injecting seam (std/patch.py)",
         "clock, timers: testing/synctest bubble; map order, hash seeds, select: seeded runtime"]
REAL = ["everything under /repo: cmd/ddlctl main, pkg/ddlctl, pkg/ddl/*, pkg/show, pkg/apply, pkg/diff, pkg/internal/* (lexers, parsers, differs, generators, config)",
        "Go's database/sql, bufio, os.File, path/filepath, go/parser, log", "github.com/kunitsucom/util.go and every other dependency of /repo but the three drivers"]

ASSUME = ["the executable database models agree with the real servers on the statements and catalogue queries ddlctl sends; where a server's behaviour was in doubt the generator stays away from it",
          "operating-system faults are those of the listed kinds at calls made through package os and package syscall"]


def pins(prop, kind):
    return sorted(glob.glob(os.path.join(VERIF, kind, prop + "-*.json")))


def findings(prop):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) pin=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out[os.path.basename(m.group(2))] = m.group(3)
    return out


def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    out = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.chmod(out, 0o755)
    code = 2
    try:
        code = run(prop, thorough, seed, out, t0)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def replay(out, f):
    r = subprocess.run([out + "/drive", "-child", out + "/child", "-dir", out + "/scratch", "-replay", f], capture_output=True, text=True)
    cls = ""
    m = re.search(r"(?m)^class: (.*)$", r.stdout)
    if m:
        cls = m.group(1)
    return r.returncode, cls, r.stdout + r.stderr


def run(prop, thorough, seed, out, t0):
    msg = build.build(out)
    if msg:
        print(msg)
        return 2
    tb = time.time() - t0
    os.makedirs(out + "/scratch", exist_ok=True)
    os.chmod(out + "/scratch", 0o755)
    code = 0
    viol = []
    known = findings(prop)
    npins = 0
    for f in pins(prop, "known"):
        npins += 1
        rc, cls, text = replay(out, f)
        exp = json.load(open(f)).get("class", "")
        name = os.path.basename(f)
        if rc == 1 and name in known and cls == exp:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[name]))
        elif rc == 1:
            print("VIOLATION property=%s replay=%s" % (prop, f))
            print(text[:3000])
            viol.append(f)
        elif rc == 0:
            print("note: the known finding of %s does not occur any more" % name)
        else:
            print("machinery: replay of %s failed: %s" % (name, text[:500]))
            return 2
    for f in pins(prop, "regress"):
        npins += 1
        rc, cls, text = replay(out, f)
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (prop, f))
            print(text[:3000])
            viol.append(f)
        elif rc != 0:
            print("machinery: replay of %s failed: %s" % (os.path.basename(f), text[:500]))
            return 2
    summ = {}
    if viol:
        code = 1
        budget = 1
    else:
        budget = THOROUGH_S if thorough else QUICK_S
    replays = os.path.join(VERIF, "replays")
    cmd = [out + "/drive", "-prop", prop, "-child", out + "/child", "-dir", out + "/scratch", "-seed", str(seed), "-time", "%gs" % budget,
           "-out", out + "/summary.json", "-replays", replays]
    if not thorough:
        cmd += ["-max", str(QUICK_N.get(prop, 10000))]
    r = subprocess.run(cmd)
    if os.path.exists(out + "/summary.json"):
        summ = json.load(open(out + "/summary.json"))
    if r.returncode not in (0, 1):
        return code or 2
    code = max(code, r.returncode)
    n = summ.get("scenarios", 0)
    ev = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2),
        "violations": len(viol) + len(summ.get("violations") or []),
        "assumptions": ASSUME,
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": summ.get("distinct", 0),
            "rule": "a case is one simulated history made from the seed: schemas and edits, sources, inputs, a fault plan and a schedule, run through the real ddlctl and judged; "
                    "non-trivial: it came to a judgement that depends on what the property is about, counted distinct by the hash of what was observed (first schema, plan, and faults that struck)",
            "samples": (summ.get("samples") or [])[:6],
            "simulated_runs": summ.get("steps", 0),
            "cases_set_aside": summ.get("not_applicable_scenarios", 0),
            "cases_per_hour": round(summ.get("scenarios_per_hour", 0)),
            "base_seed": summ.get("base_seed", seed),
            "simulated_seconds": summ.get("simulated_seconds", 0),
            "faults_injected": summ.get("faults_injected", {}),
            "faults_total": summ.get("faults_total", 0),
            "distinct_event_orders": summ.get("distinct_event_orders", 0),
            "plays": summ.get("plays", {}),
            "outcomes": summ.get("outcomes", {}),
            "determinism_rechecks": summ.get("determinism_checked", 0),
            "determinism_failures": summ.get("determinism_failed") or [],
            "infrastructure_errors": summ.get("infrastructure_errors", 0),
            "writes_refused_outside_scratch": summ.get("blocked_writes") or [],
            "pinned_scenarios": npins,
            "known_findings": sorted(known),
            "build_s": round(tb, 2),
            "real_components": REAL, "stub_components": STUBS,
        },
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return code


if __name__ == "__main__":
    main()

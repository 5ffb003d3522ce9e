#!/usr/bin/env python3
"""trybug.py ID [-t SECONDS] [-p PROP,...] [-n]: confirms a planted bug in a scratch copy of /repo and runs the checks on it.

Not a check: a tool for growing the checks. Works in /tmp/pl.
"""
import json, os, subprocess, sys, shutil, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
args = sys.argv[1:]
bug = args[0]
T = args[args.index("-t") + 1] if "-t" in args else "25"
D = V + "/seeded/" + bug
meta = json.load(open(D + "/meta.json"))
props = args[args.index("-p") + 1].split(",") if "-p" in args else [meta["property"]]
W = "/tmp/pl/" + bug
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
shutil.copytree("/repo", W + "/repo", symlinks=True)
R = W + "/repo"
ENV = ". /opt/vp/env.sh; cd %s; " % R


def sh(c, **k):
    return subprocess.run(["bash", "-c", ENV + c], capture_output=True, text=True, **k)


shutil.copytree(D, W + "/demo", ignore=lambda d, n: [x for x in n if x.endswith((".diff", ".patch")) or x == "meta.json"])


def demo():
    return subprocess.run(["bash", W + "/demo/demo.sh"], cwd=R, capture_output=True, text=True, timeout=300, env={"PATH": os.environ["PATH"], "HOME": "/root"})


ok = True
if "-n" not in args:
    r = demo()
    print("demo unchanged:", r.returncode)
    if r.returncode:
        print(r.stdout[-1500:], r.stderr[-1500:]); ok = False
r = sh("git apply %s/patch.diff && go build ./..." % D)
if r.returncode:
    print("apply/build:", r.stdout, r.stderr); sys.exit(3)
# removed lines must be original ones
base = "e5e8c01"
r = sh("git diff -U0 | grep -c '^-[^-]'")
print("removed lines:", r.stdout.strip())
if "-n" not in args:
    r = sh("go test -json -vet=off -count=1 ./... > %s/test.json; python3 /opt/vp/results.py %s/r.json gojson:%s/test.json" % (W, W, W))
    res = json.load(open(W + "/r.json"))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    miss = [x for x in stable if x not in set(res["passed"])]
    print("stable tests failing:", len(miss), miss[:5])
    ok = ok and not miss
    r = demo()
    print("demo patched:", r.returncode)
    if r.returncode == 0:
        ok = False
        print(r.stdout[-1500:], r.stderr[-1500:])
    else:
        print("   " + "\n   ".join([l for l in (r.stdout + r.stderr).splitlines() if l.strip()][:6]))
print("BUG OK" if ok else "BUG NOT OK")
os.environ["VERIF_REPO"] = R
os.environ["VERIF_GOCACHE"] = "/tmp/pl/cache"
import build
m = build.build(W + "/b", repo=R)
if m:
    print(m); sys.exit(3)
os.makedirs(W + "/sc"); os.chmod(W, 0o755); os.chmod(W + "/sc", 0o755)
for p in props:
    r = subprocess.run([W + "/b/drive", "-prop", p, "-child", W + "/b/child", "-dir", W + "/sc", "-time", T + "s", "-replays", W + "/rp", "-seed", os.environ.get("VERIF_SEED", "1")], capture_output=True, text=True)
    print(bug, p, "CAUGHT" if r.returncode == 1 else "missed (%d)" % r.returncode)
    print("   " + "\n   ".join([l[:300] for l in r.stdout.splitlines() if not l.startswith("outcomes")][:6]))
shutil.rmtree(W, ignore_errors=True)

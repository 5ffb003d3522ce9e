#!/usr/bin/env python3
"""Builds the simulation child (the real ddlctl with simulated seams) and the driver into a directory."""
import json, os, re, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "std"))
import patch  # noqa: E402

GO = "/opt/veriftools/go1.25.14/bin/go"


def goenv(out):
    e = dict(os.environ)
    for k in ("GOROOT", "GOTOOLDIR", "GOEXPERIMENT", "GODEBUG", "GOOS", "GOARCH"):
        e.pop(k, None)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off", CGO_ENABLED="0",
             GOTMPDIR=out, GOCACHE=os.environ.get("VERIF_GOCACHE", os.path.join(VERIF, ".gocache")),
             GOPATH="/root/go", HOME=os.environ.get("HOME", "/root"))
    e["GOMODCACHE"] = "/root/go/pkg/mod"
    return e


def build(out, repo=REPO, what=("child", "drive")):
    os.makedirs(out, exist_ok=True)
    env = goenv(out)
    goroot = subprocess.run([GO, "env", "GOROOT"], env=env, capture_output=True, text=True, check=True).stdout.strip()
    if "child" in what:
        std = os.path.join(out, "std")
        os.makedirs(std, exist_ok=True)
        replace = patch.patch(goroot, std)
        for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
            if f.endswith("_test.go"):
                replace[os.path.join(repo, "cmd/ddlctl", f)] = os.path.join(VERIF, "harness", f)
        with open(os.path.join(out, "overlay.json"), "w") as f:
            json.dump({"Replace": replace}, f)
        mod = open(os.path.join(repo, "go.mod")).read()
        mod = re.sub(r"(?m)^go .*$", "go 1.25.0", mod) if False else mod
        mod += "\nrequire verifsim v0.0.0\n\nreplace (\n\tverifsim => %s/sim\n" % VERIF
        for m, d in (("github.com/lib/pq", "pq"), ("github.com/go-sql-driver/mysql", "mysql"),
                     ("github.com/googleapis/go-sql-spanner", "spanner")):
            mod += "\t%s => %s/stubs/%s\n" % (m, VERIF, d)
        mod += ")\n"
        open(os.path.join(out, "go.mod"), "w").write(mod)
        shutil.copy(os.path.join(repo, "go.sum"), os.path.join(out, "go.sum"))
        r = subprocess.run([GO, "test", "-c", "-vet=off", "-trimpath", "-modfile=" + os.path.join(out, "go.mod"),
                            "-overlay=" + os.path.join(out, "overlay.json"), "-o", os.path.join(out, "child"), "./cmd/ddlctl"],
                           cwd=repo, env=env, capture_output=True, text=True)
        if r.returncode:
            return "building the simulation of /repo failed:\n" + r.stdout + r.stderr
    if "drive" in what:
        r = subprocess.run([GO, "build", "-trimpath", "-o", os.path.join(out, "drive"), "./cmd/drive"],
                           cwd=os.path.join(VERIF, "sim"), env=env, capture_output=True, text=True)
        if r.returncode:
            return "building the driver failed:\n" + r.stdout + r.stderr
    return ""


if __name__ == "__main__":
    m = build(sys.argv[1], what=tuple(sys.argv[2:]) or ("child", "drive"))
    if m:
        sys.exit(m)

#!/usr/bin/env python3
"""Development tool: writes /verif/seeded/<id>/ from a list of planted bugs and confirms
each in a scratch clone (builds, tests pass, demo behaves, check catches).
usage: plant.py LIST.py [ids]"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, "..", "seeded")
BUGS = []
def bug(id, prop, needs, breaks, edits, demo, pkg="", race=False, inpkg=False):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, pkg=pkg, race=race))
exec(open(sys.argv[1]).read())
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
DEMO = '''#!/bin/bash
# Runs demo_test.go inside the package, through an overlay: fails if the behaviour is broken.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
root=$(pwd -P)
cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$root/%(dir)szz_planted_demo_test.go": "$here/demo_test.go"}}
EOF
go test %(race)s-overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestPlantedDemo$' ./%(dir)s
'''
def sh(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, env=dict(env, **kw), capture_output=True, text=True)
for b in BUGS:
    if sys.argv[2:] and b["id"] not in sys.argv[2:]: continue
    wt = "/tmp/plant/wt"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", wt], check=True)
    d = os.path.join(SEEDED, b["id"])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    dir = b["pkg"] + "/" if b["pkg"] else ""
    open(d + "/demo_test.go", "w").write(b["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO % dict(dir=dir, race="-race " if b["race"] else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    fmt = sh(["gofmt", "-l", d + "/demo_test.go"], wt); 
    clean = [sh(["bash", d + "/demo.sh"], wt) for _ in range(3)]
    ok = True
    for f, pairs in b["edits"].items():
        p = os.path.join(wt, f); s = open(p).read()
        for x, y in pairs:
            if s.count(x) < 1: print(b["id"], "PATTERN MISSING", f, x[:60]); ok = False
            s = s.replace(x, y, 1)
        tidy = not sh(["gofmt", "-l", p], wt).stdout
        open(p, "w").write(s)
        if tidy: sh(["gofmt", "-w", p], wt)
    if not ok: continue
    diff = sh(["git", "diff"], wt).stdout
    open(d + "/patch.diff", "w").write(diff)
    build = sh(["go", "build", "./..."], wt)
    tests = sh(["go", "test", "-vet=off", "-count=1", "./..."], wt)
    bad = [sh(["bash", d + "/demo.sh"], wt) for _ in range(3)]
    chk = sh(["python3", os.path.join(HERE, "..", "run.py"), b["prop"]], "/verif", VP_REPO=wt)
    print(b["id"], b["prop"], "build", build.returncode, "tests", tests.returncode, "demo clean", [x.returncode for x in clean], "demo patched", [x.returncode for x in bad], "check", chk.returncode,
          "minus lines", sum(1 for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")), flush=True)
    if any(x.returncode for x in clean): print((clean[0].stdout + clean[0].stderr)[-1500:])
    if build.returncode or tests.returncode: print((build.stderr + tests.stdout + tests.stderr)[-800:])
    for x in bad[:1]: print("   ", " | ".join((x.stdout + x.stderr).strip().splitlines()[:4])[:300])
    print("   ", " | ".join(l for l in chk.stdout.splitlines() if l.startswith("VIOLATION") or "violat" in l.lower())[:300], flush=True)
    shutil.rmtree(wt, ignore_errors=True)

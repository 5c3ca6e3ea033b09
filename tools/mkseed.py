#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes planted changes to /verif/seeded. SPEC.py appends to `seeds` dicts with
id, prop, edits [(file, old, new)], pkg, demo (go test source), needs, breaks"""
import sys, os, subprocess, json, shutil, tempfile

DEMO = '''#!/bin/bash
# runs the demonstration beside this script inside package %(pkg)s of the tree in the working directory
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
o=$(mktemp)
trap 'rm -f "$o"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_planted_demo_test.go\\":\\"$d/demo.go\\"}}" > "$o"
go test -overlay "$o" -vet=off -count=1 -timeout 240s -run '^TestPlantedDemo$' ./%(pkg)s
'''
R = os.environ.get('SEED_REPO', '/repo')
V = os.environ.get('SEED_VERIF', '/verif')
seeds = []
exec(open(sys.argv[1]).read())
for s in seeds:
    d = f"{V}/seeded/{s['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="mkseed")
    subprocess.run(["git", "-C", R, "worktree", "add", "-q", "--detach", w + "/r"], check=True)
    try:
        for f, old, new in s["edits"]:
            p = f"{w}/r/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit(f"{s['id']}: {f}: {t.count(old)} matches for {old!r}")
            open(p, "w").write(t.replace(old, new))
        subprocess.run(["gofmt", "-l"] + [f"{w}/r/{f}" for f, _, _ in s["edits"]], check=True)
        diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        subprocess.run(["git", "-C", R, "worktree", "remove", "--force", w + "/r"], check=True)
        shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(diff)
    if s.get("raw_demo"):
        open(d + "/demo.sh", "w").write(s["raw_demo"])
    else:
        open(d + "/demo.sh", "w").write(DEMO % s)
    if s.get("demo"):
        open(d + "/demo.go", "w").write(s["demo"])
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", d)

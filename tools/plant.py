#!/usr/bin/env python3
"""Development helper: confirms a planted bug in a scratch copy and stores it under seeded/.

usage: plant.py FILE...   each FILE defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (body of a Go test file)
Then runs the property's quick check against a scratch harness on the patched copy.
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# Runs the test beside this file against the package in the current directory.
d="$(cd "$(dirname "$0")" && pwd)"
o="$(mktemp)" || exit 2
trap 'rm -f "$o"' EXIT
printf '{"Replace": {"%s/zz_demo_test.go": "%s/demo.go.txt"}}' "$PWD" "$d" >"$o"
PKG
'''
def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)
baseline = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    id = ns["ID"]
    work = tempfile.mkdtemp(prefix="plant.")
    copy = os.path.join(work, "repo")
    sh(f"cp -a /repo {copy}")
    d = os.path.join(ROOT, "seeded", id)
    ok = True
    for file, old, new in ns["EDITS"]:
        p = os.path.join(copy, file)
        s = open(p).read()
        if s.count(old) != 1:
            print(id, "EDIT does not match exactly once:", file, s.count(old)); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if ok:
        sh("git add -A -N .", cwd=copy)
        patch = sh("git diff", cwd=copy).stdout
        b = sh(". /verif/env.sh; gofmt -l $(git diff --name-only); go build ./...", cwd=copy)
        if b.returncode != 0:
            print(id, "does not build", b.stderr[-1500:]); ok = False
        elif b.stdout.strip(): print(id, "gofmt:", b.stdout.strip())
    if ok:
        sh(f". /opt/vp/env.sh; cd {copy} && go test -json -vet=off -count=1 -timeout 10m ./... > {work}/test.json; python3 /opt/vp/results.py {work}/out.json gojson:{work}/test.json")
        out = json.load(open(f"{work}/out.json"))
        passed = set(out["passed"])
        missing = baseline - passed
        if missing:
            print(id, "breaks existing tests:", sorted(missing)[:6]); ok = False
    if ok:
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(patch)
        pkg = ns.get("PKG", ".")
        body = ns.get("DEMO_SH")
        open(d + "/demo.sh", "w").write(body or DEMO_SH.replace("PKG", 'go test -overlay "$o" -run TestDemo -count=1 %s.' % ns.get("FLAGS", "")))
        if "DEMO" in ns: open(d + "/demo.go.txt", "w").write(ns["DEMO"].lstrip())
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        r1 = sh(f". /verif/env.sh; bash {d}/demo.sh", cwd="/repo")
        r2 = sh(f". /verif/env.sh; bash {d}/demo.sh", cwd=copy)
        if r1.returncode != 0: print(id, "demo fails on the unchanged tree", r1.stdout[-1500:], r1.stderr[-800:]); ok = False
        if r2.returncode == 0: print(id, "demo passes with the patch"); ok = False
        if r2.returncode != 0 and ("build failed" in r2.stdout): print(id, "demo does not build"); ok = False
        if not ok: shutil.rmtree(d)
    if ok and not ns.get("NORUN"):
        h = os.path.join(work, "verif")
        sh(f"mkdir -p {h} && cp -a {ROOT}/harness {ROOT}/env.sh {ROOT}/run.sh {ROOT}/known_findings.txt {h}/ && sed -i 's#=> /repo#=> {copy}#' {h}/harness/go.mod")
        props = [ns["PROPERTY"]] if not os.environ.get("ALL") else [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
        for p in props:
            env = dict(os.environ, VERIF_SEED="1", HM_REPO=copy)
            r = sh(f"bash run.sh {p} quick", cwd=h, env=env)
            print(id, p, {0: "MISSED", 1: "CAUGHT"}.get(r.returncode, "ERROR %d %s" % (r.returncode, r.stderr[-500:])), [l for l in r.stdout.splitlines() if "VIOLATION" not in l][-1:][0] if r.stdout else "")
            if r.returncode == 1:
                print("   ", "\n    ".join(r.stdout.splitlines()[:6])[:700])
    shutil.rmtree(work, ignore_errors=True)
    print(id, "kept" if ok else "NOT KEPT")

"""Development tool: makes /verif/seeded/<id> from textual edits and a Go demo
program, after confirming in scratch copies of /repo that the change builds,
passes the stable tests and makes the demo fail."""
import json, os, shutil, subprocess, sys
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off")
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
DEMO = '''#!/bin/bash
# exit 0: behaves as the property demands; nonzero: does not.
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
printf '{"Replace": {"%s/zz_demo/main.go": "%s/main.go.txt"}}' "$PWD" "$D" >"$S/o.json"
go build -overlay "$S/o.json" -o "$S/demo" ./zz_demo || exit 2
cd "$S" && timeout 60 ./demo
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def tests(d):
    r = run(["go", "test", "-json", "-vet=off", "-count=1", "./..."], d)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add(e["Package"] + "/" + e["Test"])
    return [t for t in BASE if t not in ok]
def seed(id, prop, needs, what, edits, demo):
    w = "/tmp/seedwork"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    open(d + "/main.go.txt", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    r = run(["bash", d + "/demo.sh"], w)
    ok = True
    if r.returncode != 0:
        print(id, "demo fails on the unchanged tree:", r.stdout[-1500:], r.stderr[-1500:]); ok = False
    for f, old, new in edits:
        p = w + "/" + f
        s = open(p).read()
        if s.count(old) != 1:
            print(id, f, "old text occurs", s.count(old), "times"); ok = False; continue
        open(p, "w").write(s.replace(old, new))
    b = run(["go", "build", "./..."], w)
    if b.returncode: print(id, "build:", b.stderr[-800:]); ok = False
    else:
        m = tests(w)
        if m: print(id, "tests fail:", len(m), m[:4]); ok = False
        r = run(["bash", d + "/demo.sh"], w)
        if r.returncode == 0: print(id, "demo passes with the change"); ok = False
        elif r.returncode == 2 and "# github.com" in r.stderr: print(id, "demo does not build", r.stderr); ok = False
    open(d + "/patch.diff", "w").write(run(["git", "diff"], w).stdout)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w, ignore_errors=True)
    if ok: print(id, "ok")
    else: shutil.rmtree(d)
    return ok

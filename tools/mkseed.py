#!/usr/bin/env python3
"""mkseed.py ID PROP PKGDIR FILE PERL-EXPR NEEDS BREAKS < demo_test.go
Make a planted bug in a scratch copy, confirm it, and keep it under /verif/seeded/ID."""
import os, subprocess, sys, json, shutil
id_, prop, pkg, file, expr, needs, breaks = sys.argv[1:8]
demo = sys.stdin.read()
env = dict(os.environ)
def sh(c, cwd, **k):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + c], cwd=cwd, capture_output=True, text=True, **k)
W = "/tmp/seedrepo"
shutil.rmtree(W, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", W], check=True)
sh("git checkout -- .", W)
r = subprocess.run(["perl", "-0pi", "-e", expr, file], cwd=W)
if r.returncode: sys.exit("perl failed")
patch = sh("git diff", W).stdout
if not patch.strip(): sys.exit("NO CHANGE")
b = sh("go build ./... && go vet ./... >/dev/null 2>&1; go build ./...", W)
if b.returncode: sys.exit("does not build\n" + b.stdout + b.stderr)
D = "/verif/seeded/" + id_
os.makedirs(D, exist_ok=True)
open(D + "/patch.diff", "w").write(patch)
open(D + "/demo_test.go", "w").write(demo)
p = "./" + pkg
open(D + "/demo.sh", "w").write("""#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
printf '{"Replace":{"%%s/%szz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$ov"
go test -overlay "$ov" -count=1 -vet=off -timeout 120s -run '^TestSeededDemo$' %s
""" % (pkg + "/" if pkg else "", p))
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(D + "/meta.json", "w"), indent=1)
ok = True
a = sh("bash %s/demo.sh" % D, "/repo"); c = sh("bash %s/demo.sh" % D, W)
if a.returncode != 0: ok = False; print("demo fails on unchanged tree\n", a.stdout[-2000:], a.stderr[-2000:])
if c.returncode == 0: ok = False; print("demo passes with the bug")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
t = sh("go test -json -vet=off -count=1 -p 1 ./...", W)
passed = set()
for l in t.stdout.splitlines():
    try: e = json.loads(l)
    except Exception: continue
    if e.get("Action") == "pass" and e.get("Test"): passed.add(e["Package"] + "/" + e["Test"])
miss = stable - passed
if miss: ok = False; print("stable tests fail:", sorted(miss)[:5])
chk = subprocess.run(["python3", "/verif/tools/check.py", prop], env=dict(os.environ, VERIF_REPO=W), capture_output=True, text=True)
print("demo failure:", (c.stdout + c.stderr)[-300:].strip().splitlines()[:4])
print("CHECK", chk.returncode, chk.stdout.strip()[-500:])
print("SEED", id_, "OK" if ok else "REJECTED")
if not ok: shutil.rmtree(D)
shutil.rmtree(W, ignore_errors=True)

#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from an edit list, after confirming in a scratch copy
that the change builds, passes the stable tests, and that the demonstration
fails with it and passes without it."""
import json, os, shutil, subprocess, sys, textwrap
WT = "/tmp/seedwt"
ENV = dict(os.environ)

def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

DEMO = '''#!/bin/bash
# run with cwd = the repository; 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
root=$(pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cp "$here/main.go.txt" "$tmp/main.go"
echo '{"Replace":{"'$root'/%(sub)szz_demo/main.go":"'$tmp'/main.go"}}' > "$tmp/o.json"
cd "$root/%(sub)s." || exit 3
go build %(race)s -overlay "$tmp/o.json" -o "$tmp/demo" ./zz_demo || exit 3
mkdir "$tmp/w" && cd "$tmp/w" && timeout 120 "$tmp/demo"
'''

def prepare():
    sh("rm -rf /tmp/seedwt")
    rc, o = sh("cp -a /repo /tmp/seedwt")
    assert rc == 0, o
    sh("git checkout -q -- . && git clean -fdq", WT)
    open("/tmp/seed.work", "w").write("go 1.25.0\n\nuse (\n\t/tmp/seedwt\n\t/tmp/seedwt/cmd/xtemplate\n)\n")
    shutil.copy("/opt/vp/go.work.sum", "/tmp/seed.work.sum") if os.path.exists("/opt/vp/go.work.sum") else None

def passing(out):
    ok, bad = set(), set()
    for line in out.splitlines():
        try: d = json.loads(line)
        except Exception: continue
        if d.get("Test") and d.get("Action") in ("pass", "fail"):
            (ok if d["Action"] == "pass" else bad).add((d["Package"], d["Test"]))
    return ok, bad

GOENV = ". /opt/vp/env.sh; export GOWORK=/tmp/seed.work; "

def tests():
    ok, bad = set(), set()
    for m in (WT, WT + "/cmd/xtemplate"):
        rc, o = sh(GOENV + "go test -json -vet=off -count=1 ./...", m)
        a, b = passing(o)
        ok |= a; bad |= b
        if rc != 0 and not b:
            bad.add(("build", o[-500:]))
    return ok, bad

def demo(d):
    return sh("sed 's#\\. /opt/vp/env.sh#. /opt/vp/env.sh; export GOWORK=/tmp/seed.work#' %s/demo.sh > %s/.d.sh; bash %s/.d.sh; rc=$?; rm -f %s/.d.sh; exit $rc" % (d, d, d, d), WT, 300)

def seed(id, prop, edits, main, needs, breaks, sub="", race=""):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    open(d + "/main.go.txt", "w").write(textwrap.dedent(main).lstrip())
    open(d + "/demo.sh", "w").write(DEMO % {"sub": sub, "race": race})
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    sh("git checkout -q -- .", WT)
    rc, o = demo(d)
    if rc != 0:
        print(id, "DEMO FAILS ON CLEAN", rc, o[-1500:]); return False
    for f, a, b in edits:
        p = WT + "/" + f
        s = open(p).read()
        if s.count(a) != 1:
            print(id, "EDIT", f, "matches", s.count(a)); return False
        open(p, "w").write(s.replace(a, b))
    sh(GOENV + "gofmt -l .", WT)
    ok, bad = tests()
    base = {tuple(x) for x in json.load(open("/tmp/seed.base.json"))}
    if bad or not base <= ok:
        print(id, "TESTS FAIL", list(bad)[:3], len(base - ok)); sh("git checkout -q -- .", WT); return False
    rc, o = demo(d)
    if rc == 0 or rc == 3:
        print(id, "DEMO DOES NOT FAIL", rc, o[-800:]); sh("git checkout -q -- .", WT); return False
    rc, diff = sh("git diff", WT)
    open(d + "/patch.diff", "w").write(diff)
    sh("git checkout -q -- .", WT)
    print(id, "ok:", o.strip().splitlines()[-1][:150] if o.strip() else rc)
    return True

def main(seeds, only):
    prepare()
    ok, bad = tests()
    assert not bad, bad
    json.dump(sorted(map(list, ok)), open("/tmp/seed.base.json", "w"))
    for s in seeds:
        if only and s["id"] not in only: continue
        try:
            if not seed(**s):
                sh("rm -f /verif/seeded/%s/patch.diff" % s["id"])
        except Exception as e:
            print(s["id"], "EXC", e)
    sh("rm -rf /tmp/seedwt /tmp/seed.work /tmp/seed.work.sum")

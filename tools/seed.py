#!/usr/bin/env python3
"""seed.py FILE: plants the bugs described in FILE (a Python list BUGS) in a scratch copy of
/repo, confirms each, and keeps those that are confirmed in /verif/seeded."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
BUGS = {}
exec(open(sys.argv[1]).read())
only = sys.argv[2:]
WT = "/tmp/seedwt"
DEMO = """#!/bin/bash
# Run in /repo after its build: exits 0 where the property holds, 1 where it is broken.
. /opt/vp/env.sh || exit 1
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/internal/database/zz_demo_test.go":"%s/demo.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
timeout 250 go test RACE-vet=off -count=1 -overlay "$tmp/overlay.json" -run 'TestDemo$' ./internal/database
"""
HEAD = """package database_test

import (
	"testing"
IMPORTS
	"github.com/dball/destructive/internal/database"
	. "github.com/dball/destructive/internal/types"
)

func TestDemo(t *testing.T) {
	db := database.NewIndexDatabase(8, 8, 8)
	write := func(cs ...Claim) Response { return db.Write(Request{Claims: cs}) }
	must := func(cs ...Claim) Response {
		t.Helper()
		res := write(cs...)
		if res.Error != nil {
			t.Fatal(res.Error)
		}
		return res
	}
	list := func(s Snapshot, c Claim) (ds []Datum) {
		for d := range s.Select(c) {
			ds = append(ds, d)
		}
		return
	}
	declare := func(attrs ...Attr) {
		t.Helper()
		if err := database.Declare(db, attrs...); err != nil {
			t.Fatal(err)
		}
	}
	_, _, _ = must, list, declare
BODY
}
"""
def sh(cmd, cwd=WT):
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode("utf8", "replace")
if os.path.exists(WT):
    shutil.rmtree(WT)
shutil.copytree("/repo", WT)
for id, b in BUGS.items():
    if only and id not in only:
        continue
    sh("git checkout -q -- . && git clean -fdq")
    d = "/tmp/seedout/" + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    body = HEAD.replace("BODY", b["demo"].strip("\n")).replace("IMPORTS", "".join('\t"%s"\n' % i for i in b.get("imports", [])))
    open(d + "/demo.go.txt", "w").write(body)
    open(d + "/demo.sh", "w").write(DEMO.replace("RACE", "-race " if b.get("race") else ""))
    os.chmod(d + "/demo.sh", 0o755)
    rc, out = sh("bash %s/demo.sh" % d)
    if rc != 0:
        print(id, "DEMO FAILS ON THE UNCHANGED TREE\n", out[:3000]); continue
    bad = False
    for f, old, new in b["edits"]:
        s = open(WT + "/" + f).read()
        n = s.count(old)
        if n != 1:
            print(id, "edit matches", n, "times:", old); bad = True; break
        open(WT + "/" + f, "w").write(s.replace(old, new))
    if bad: continue
    rc, out = sh("git diff > %s/patch.diff; gofmt -l internal pkg; go build ./... " % d)
    if rc != 0:
        print(id, "DOES NOT BUILD", out); continue
    if out.strip(): print(id, "gofmt:", out)
    rc, out = sh("git diff -U0 | grep '^-[^-]' | cut -c2- > /tmp/removed; true")
    rc, out = sh("go test -vet=off -count=1 ./... 2>&1")
    if rc != 0:
        print(id, "THE TESTS CATCH IT", [l for l in out.split("\n") if "--- FAIL" in l][:4]); continue
    rc, out = sh("bash %s/demo.sh" % d)
    if rc == 0:
        print(id, "THE DEMO PASSES WITH THE BUG"); continue
    if "FAIL" not in out or "build failed" in out:
        print(id, "demo:", out[:1500])
        continue
    # the removed lines must be of the original repository
    sh("git checkout -q -- .")
    rc, out = sh("for f in $(git apply --numstat %s/patch.diff | cut -f3); do git blame -s eb3cb50..HEAD -- $f | grep -v '^\\^' ; done" % d)
    mine = set(" ".join(l.split(")", 1)[1].split()) for l in out.split("\n") if ")" in l)
    for l in open("/tmp/removed"):
        k = " ".join(l.split())
        if k in mine and len(k) > 4:
            print(id, "touches a line of my own:", k)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree("/verif/seeded/" + id, ignore_errors=True)
    shutil.copytree(d, "/verif/seeded/" + id)
    print(id, "ok:", [l for l in out.split("\n") if "demo_test" in l][:1])
shutil.rmtree(WT)

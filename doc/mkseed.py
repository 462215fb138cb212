#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes /verif/seeded/<id>/ from a spec: id, property, needs, breaks, edits=[(file, old, new)], pkg, test"""
import sys, os, json, subprocess, shutil
ns = {}; exec(open(sys.argv[1]).read(), ns)
d = "/verif/seeded/" + ns["id"]; os.makedirs(d, exist_ok=True)
w = "/tmp/mkseed"; shutil.rmtree(w, ignore_errors=True); subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"]); subprocess.check_call(["cp", "-a", "/repo", w])
for f, a, b in ns["edits"]:
    p = w + "/" + f; s = open(p).read(); assert s.count(a) == 1, (f, a, s.count(a)); open(p, "w").write(s.replace(a, b))
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w, "diff"], text=True))
json.dump(dict(property=ns["property"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(d + "/meta.json", "w"), indent=1)
open(d + "/demo_test.go.txt", "w").write(ns["test"])
pkg = ns["pkg"]
open(d + "/demo.sh", "w").write('''#!/bin/bash
# runs the demonstration beside this file as an in-package test of the repository in the current directory
d="$(cd "$(dirname "$0")" && pwd)"; t="$(mktemp -d)" || exit 2
trap 'rm -rf "$t"' EXIT
export TMPDIR="$t"
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
echo "{\\"Replace\\":{\\"$PWD/%s/zz_seeded_demo_test.go\\":\\"$d/demo_test.go.txt\\"}}" > "$t/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run 'TestSeededDemo' ./%s
''' % (pkg, pkg))
shutil.rmtree(w)

#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for every planted bug listed in tools/seeds.py.

Each bug is a list of (file, old, new) edits against /repo HEAD.
usage: mkseeds.py [ID...]"""
import json, os, subprocess, sys, shutil, tempfile, importlib.util
root = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
spec = importlib.util.spec_from_file_location("seeds", os.path.join(root, "tools", "seeds.py"))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = set(sys.argv[1:])
HEAD = '''#!/bin/bash
# Exit 0: behaves as it should.  Non-zero: misbehaves.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOROOT
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
go build -o "$d/bin/" ./cmd/... || exit 3
mkdir "$d/m" && cd "$d/m" || exit 3
printf 'module example.com/m\\n\\ngo 1.23\\n' > go.mod
cap() { "$d/bin/capslock" "$@"; }
# pairs: lines "<capability> <first function>" from a JSON report on stdin.
pairs() { python3 -c '
import json,sys
for c in json.load(sys.stdin).get("capabilityInfo",[]):
    print(c["capability"].replace("CAPABILITY_",""), (c.get("path") or [{"name":c.get("packageDir")}])[0]["name"])' | sort; }
has() { grep -qxF -- "$1" || { echo "missing: $1" >&2; return 1; }; }
'''
scratch = tempfile.mkdtemp()
repo = os.path.join(scratch, "repo")
subprocess.run(["git","clone","-q","/repo",repo],check=True)
try:
  for sid, s in m.SEEDS.items():
    if only and sid not in only: continue
    d = os.path.join(root, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    for f, old, new in s["edits"]:
        p = os.path.join(repo, f)
        t = open(p).read()
        assert t.count(old) == 1, (sid, f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git","-C",repo,"diff"],capture_output=True,text=True).stdout
    subprocess.run(["git","-C",repo,"checkout","-q","."],check=True)
    open(os.path.join(d,"patch.diff"),"w").write(diff)
    open(os.path.join(d,"demo.sh"),"w").write(HEAD + s["demo"].lstrip("\n"))
    json.dump({"property":s["property"],"needs":s["needs"],"what_it_breaks":s["breaks"]}, open(os.path.join(d,"meta.json"),"w"), indent=1)
    open(os.path.join(d,"meta.json"),"a").write("\n")
    print(sid, len(diff.splitlines()))
finally:
  shutil.rmtree(scratch)

#!/usr/bin/env python3
"""Plant a bug: seed.py SPECFILE...

A spec file is Python setting: id, prop, needs, breaks, pkg ("" | "lcolor" | "ora" | "xcf" |
"internal"), edits = [(file, old, new), ...] and demo = the body of a Go test file.
The bug is applied to a scratch copy of /repo, which must build and pass the stable tests;
the demonstration must pass on /repo as it is and fail on the copy.  Only then is
/verif/seeded/<id>/ written.
"""
import json, os, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO = r'''#!/bin/bash
# Runs demo_test.go inside the package it demonstrates, through an overlay.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo-XXXXXX)
trap 'rm -rf "$t"' EXIT
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GONOSUMDB='*' GOCACHE="$t/cache"
[ -d /root/.cache/go-build ] && export GOCACHE=/root/.cache/go-build
cp go.mod "$t/go.mod"
cp go.sum "$t/go.sum" 2>/dev/null
if [ -d "$here/stubs" ]; then
  for m in byteio memio parser; do
    echo "replace vimagination.zapto.org/$m => $here/stubs/$m" >>"$t/go.mod"
  done
fi
echo "{\"Replace\":{\"$PWD/@PKG@zz_demo_test.go\":\"$here/demo_test.go\"}}" >"$t/overlay.json"
timeout 250 go test -count=1 -vet=off -modfile="$t/go.mod" -overlay "$t/overlay.json" -run '^TestDemo' "./@PKG@"
'''


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def plant(path):
    ns = {}
    exec(open(path).read(), ns)
    sid = ns["id"]
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        d = os.path.join(w, "out")
        os.mkdir(d)
        pkg = ns["pkg"] + "/" if ns["pkg"] else ""
        with open(d + "/demo.sh", "w") as f:
            f.write(DEMO.replace("@PKG@", pkg))
        os.chmod(d + "/demo.sh", 0o755)
        with open(d + "/demo_test.go", "w") as f:
            f.write(ns["demo"].lstrip())
        if ns["pkg"] in ("xcf", "ora"):
            os.mkdir(d + "/stubs")
            for m in ("byteio", "memio", "parser"):
                shutil.copytree("%s/stubs/%s" % (ROOT, m), "%s/stubs/%s" % (d, m))
        json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        c = w + "/repo"
        shutil.copytree("/repo", c, symlinks=True)
        for fn, old, new in ns["edits"]:
            p = os.path.join(c, fn)
            s = open(p).read()
            if s.count(old) != 1:
                return sid, "edit does not apply (%d): %s" % (s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        rc, out = sh("gofmt -l .; git diff", c)
        if not out.startswith("diff"):
            return sid, "not formatted: " + out[:80]
        open(d + "/patch.diff", "w").write(out)
        # changed lines must be lines of the original repository
        orig = {fn: subprocess.run(["git", "show", "0b8ef74:" + fn], cwd="/repo", stdout=subprocess.PIPE).stdout.decode().splitlines() for fn, _, _ in ns["edits"]}
        fn, ok = None, False
        for l in out.splitlines():
            if l.startswith("--- a/"):
                fn = l[6:]
            elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] in orig[fn]:
                ok = True
        if not ok:
            return sid, "no original line changed"
        rc, out = sh("bash %s/demo.sh" % d, "/repo")
        if rc:
            return sid, "demo fails on the unchanged tree: " + out[-800:]
        rc, out = sh("bash %s/demo.sh" % d, c)
        if rc == 0:
            return sid, "demo passes with the bug"
        if "zz_demo_test" not in out and "demo_test.go" not in out and "panic" not in out and "--- FAIL" not in out:
            return sid, "demo does not fail properly: " + out[-800:]
        for m in ("byteio", "memio", "parser"):
            open(c + "/go.mod", "a").write("replace vimagination.zapto.org/%s => %s/stubs/%s\n" % (m, ROOT, m))
        rc, out = sh("GOPROXY=off GOFLAGS=-mod=mod go test . ./lcolor ./internal ./ora ./xcf", c)
        if rc:
            return sid, "build or tests fail: " + out[-500:]
        dst = os.path.join(ROOT, "seeded", sid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        return sid, "ok"
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    for a in sys.argv[1:]:
        print(*plant(a))

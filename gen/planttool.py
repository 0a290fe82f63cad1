"""Helper for planting bugs (development only; no check uses it).

  from planttool import plant
  plant(id, prop, edits=[(file, old, new)], pkg="interfaces/core", demo=GO_TEST_SOURCE, needs=..., breaks=..., genesis=False)

Makes a scratch copy of /repo, applies the edits, verifies build, demo (fails
with / passes without) and - unless notests - the stable tests, and writes
/verif/seeded/<id>/.
"""
import json, os, shutil, subprocess, sys, tempfile
VERIF = "/verif"
DEMO = r'''#!/bin/bash
# exit 0: the property holds on this tree; nonzero: it does not. Run with cwd = repository root.
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
HERE=$(cd "$(dirname "$0")" && pwd)
ROOT=$PWD
T=$(mktemp -d) && trap 'rm -rf "$T"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_verif_test.go": "%%s/demo_test.go.txt"%(gen)s}}' "$ROOT" "$HERE"%(genargs)s > "$T/overlay.json"
export TMPDIR=$T
go test -vet=off -count=1 -timeout 250s -overlay "$T/overlay.json" -run '^TestVerifDemo$' ./%(pkg)s
'''

def sh(cmd, cwd=None, timeout=1200):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout

def stable(wt, tmp):
    for f in ("env.sh", "test.sh", "build.sh"):
        s = open("/opt/vp/" + f).read().replace("cd /repo", "cd " + wt).replace("/opt/vp/env.sh", tmp + "/env.sh").replace("L=/opt/vp/log", "L=%s/log" % tmp)
        open(tmp + "/" + f, "w").write(s)
    rc, out = sh("bash %s/build.sh" % tmp)
    if rc:
        return "build failed\n" + out
    sh("bash %s/test.sh %s/out.json" % (tmp, tmp))
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    miss = base - set(json.load(open(tmp + "/out.json"))["passed"])
    return "" if not miss else "stable tests fail: %s" % sorted(miss)[:5]

def plant(id, prop, edits, pkg, demo, needs, breaks, genesis=False, notests=False, extra=None):
    d = os.path.join(VERIF, "seeded", id)
    tmp = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    wt = tmp + "/wt"
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt, "HEAD"])
        for f, old, new in edits:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "EDIT does not match once:", f, s.count(old)); return False
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh("git diff", wt)
        stage = tmp + "/stage"; os.makedirs(stage)
        open(stage + "/patch.diff", "w").write(diff)
        open(stage + "/demo_test.go.txt", "w").write(demo)
        g = ', "%s/common/config/zz_genesis_verif.go": "%s/genesis.go.txt"' if genesis else ""
        open(stage + "/demo.sh", "w").write(DEMO % dict(pkg=pkg, gen=g, genargs=' "$ROOT" "$HERE"' if genesis else ""))
        if genesis:
            open(stage + "/genesis.go.txt", "w").write("package config\n\nconst genesisJson = `{}`\n")
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(stage + "/meta.json", "w"), indent=1)
        rc, out = sh("bash %s/demo.sh" % stage, wt)
        if rc == 0:
            print(id, "DEMO passes with the patch\n", out[-2000:]); return False
        if "FAIL" not in out or "build failed" in out or "cannot find" in out:
            print(id, "DEMO odd failure\n", out[-3000:]); return False
        bad = out
        rc, out = sh("bash %s/demo.sh" % stage, "/repo")
        if rc != 0:
            print(id, "DEMO fails on clean tree\n", out[-3000:]); return False
        if not notests:
            e = stable(wt, tmp)
            if e:
                print(id, e); return False
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(stage, d)
        print(id, "planted;", bad.strip().splitlines()[1][:150] if len(bad.strip().splitlines()) > 1 else "")
        return True
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", wt], stderr=subprocess.DEVNULL)
        shutil.rmtree(tmp, ignore_errors=True)
        subprocess.call(["git", "-C", "/repo", "worktree", "prune"])

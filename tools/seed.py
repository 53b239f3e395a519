#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the definitions in bugs.py, confirming each bug in a scratch worktree.
usage: seed.py [ID...]"""
import json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bugs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seedwt"

PRE = r'''#!/bin/bash
# Runs in /repo: exit 0 if the property holds for this input, 1 if not.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
go build -o "$T/gql" . || exit 2
cd "$T" || exit 2
fail() { echo "property broken: $*"; exit 1; }
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def main():
    ids = sys.argv[1:]
    for b in bugs.BUGS:
        if ids and b["id"] not in ids:
            continue
        sh("git -C /repo worktree remove --force %s; rm -rf %s; git -C /repo worktree prune" % (WT, WT))
        r = sh("git -C /repo worktree add --detach %s HEAD" % WT)
        assert r.returncode == 0, r.stderr
        base = {}
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(WT, f)
                s = open(p).read()
                n = s.count(old)
                assert n == 1, (b["id"], "occurrences", n, old)
                open(p, "w").write(s.replace(old, new))
            d = os.path.join(V, "seeded", b["id"])
            os.makedirs(d, exist_ok=True)
            demo = PRE + b["demo"].strip("\n") + "\nexit 0\n"
            open(os.path.join(d, "demo.sh"), "w").write(demo)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            for n, t in b.get("files", {}).items():
                open(os.path.join(d, n), "w").write(t)
            diff = sh("git diff", cwd=WT).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            t = sh(". /opt/vp/env.sh; go build ./... && go vet ./cmd/... ./pkg/... ./utils/... >/dev/null; go test ./... 2>&1 | tail -20", cwd=WT, executable="/bin/bash")
            ok = "FAIL" not in t.stdout and t.returncode == 0
            with_ = sh(["bash", os.path.join(d, "demo.sh")], cwd=WT)
            sh("git checkout -- .", cwd=WT)
            without = sh(["bash", os.path.join(d, "demo.sh")], cwd=WT)
            # the lines changed have to be original ones
            good = ok and with_.returncode == 1 and without.returncode == 0
            print(b["id"], b["property"], "OK" if good else "BAD tests=%s with=%d without=%d" % (ok, with_.returncode, without.returncode))
            if not good:
                print(t.stdout[-1500:], t.stderr[-500:], with_.stdout[-800:], with_.stderr[-500:], without.stdout[-800:], without.stderr[-500:])
        finally:
            sh("git -C /repo worktree remove --force %s; rm -rf %s; git -C /repo worktree prune" % (WT, WT))


main()

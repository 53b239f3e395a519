#!/usr/bin/env python3
"""Runs the check of its property (or all checks) against planted bugs, each in a scratch copy of /repo that is
bind-mounted over /repo in a mount namespace of its own. usage: matrix.py [-a] [-j N] [-p PROPERTY] [ID | PATCHFILE...]
-a runs all checks, -p the given one. Results for planted bugs go to seeded/MATRIX.json; without a patch file's
property the result is only printed."""
import json, os, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
sys.path.insert(0, os.path.join(V, "lib"))
import checks
args = sys.argv[1:]
every = "-a" in args
jobs, only, ids = 2, [], []
i = 0
while i < len(args):
    if args[i] == "-j":
        jobs = int(args[i + 1]); i += 1
    elif args[i] == "-p":
        only += args[i + 1].split(","); i += 1
    elif args[i] != "-a":
        ids.append(args[i])
    i += 1
ids = ids or sorted(d for d in os.listdir(S) if os.path.isdir(os.path.join(S, d)))
M = os.path.join(S, "MATRIX.json")
lock = threading.Lock()
ROOT = tempfile.mkdtemp(prefix="matrix-")


def contained(tree, prop):
    """Runs one check in namespaces of its own, in which all users are mapped (the checks run the tool as nobody)."""
    p = subprocess.Popen(["unshare", "-Um", "bash", "-c", 'read -r _; mount --bind "$1/repo" /repo && mount --bind "$1/evidence" /verif/evidence && cd /verif && exec python3 check.py "$2"',
                          "-", tree, prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    while os.readlink("/proc/%d/ns/user" % p.pid) == os.readlink("/proc/self/ns/user"):
        time.sleep(.01)
    for f in ("uid_map", "gid_map"):
        open("/proc/%d/%s" % (p.pid, f), "w").write("0 0 65536")
    out, err = p.communicate("\n")
    return subprocess.CompletedProcess(p.args, p.returncode, out, err)


def one(b):
    patch = b if b.endswith(".diff") else os.path.join(S, b, "patch.diff")
    prop = None if b.endswith(".diff") else json.load(open(os.path.join(S, b, "meta.json")))["property"]
    tree = tempfile.mkdtemp(dir=ROOT)
    try:
        subprocess.check_call(["cp", "-a", "/repo", tree + "/repo"])
        os.mkdir(tree + "/evidence")
        subprocess.check_call(["git", "-C", tree + "/repo", "apply", os.path.abspath(patch)])
        caught, broken, out = [], [], {}
        for p in (sorted(checks.CHECKS) if every else only or [prop]):
            r = contained(tree, p)
            if r.returncode == 1 and "VIOLATION property=" + p in r.stdout:
                caught.append(p)
            elif r.returncode != 0:
                broken.append(p)
                print(r.stdout[-500:], r.stderr[-1500:])
    finally:
        shutil.rmtree(tree, ignore_errors=True)
    with lock:
        print(b, prop or "", "CAUGHT" if (prop in caught if prop else caught) else "MISSED", caught, broken, flush=True)
        if prop:
            try:
                res = json.load(open(M))
            except OSError:
                res = {}
            res[b] = {"property": prop, "caught_by": caught, "broken": broken, "all_checks": every}
            json.dump(res, open(M, "w"), indent=1, sort_keys=True)


with ThreadPoolExecutor(jobs) as ex:
    list(ex.map(one, ids))
shutil.rmtree(ROOT, ignore_errors=True)

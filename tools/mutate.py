#!/usr/bin/env python3
"""Mutation testing of the machinery: which small changes of the code that pass its tests leave the recorded traces unchanged, and which of
the others does the specification accept? usage: mutate.py OUT.json FILE... (files relative to /repo). Works in /tmp/mut only."""
import hashlib, json, os, glob, re, shutil, subprocess, sys, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from vlib import go_env, CP, SPEC
W = "/tmp/mut"
MUT = os.environ.get("MUTANTS", "/tmp/w/mutants")
CASES = os.environ.get("CASES", "/tmp/mutcases")     # directory with edits.ndjson, types.ndjson, rules.ndjson, scan.ndjson, faults.ndjson
HELP = open(V + "/tools/mutants/help.go.txt").read()

def plans(f):
    """driver runs for a mutated file: (driver, args, trace module, properties)"""
    C = [("drv-compare", ["-random", "mixed:250,ext:150,large:60,safe:150,dangerous:150,additive:150,breaking:150,same:60"], "TraceCompare", ["C07", "C11"]),
         ("drv-compare", ["-cases", CASES + "/edits.ndjson"], "TraceCompare", ["C07", "C11"]),
         ("drv-compare", ["-cases", CASES + "/names.ndjson"], "TraceCompare", ["C07", "C11"]),
         ("drv-compare", ["-cases", CASES + "/types.ndjson"], "TraceCompare", ["C07"])]
    R = [("drv-lint", ["-mode", "rules", "-random", "rules:700"], "TraceRules", ["L01", "L02", "L03", "L04"])] + [
         ("drv-lint", ["-mode", "rules", "-cases", CASES + "/%s.ndjson" % n], "TraceRules", ["L01", "L02", "L03", "L04"]) for n in ("rules", "conn", "args")]
    S = [("drv-lint", ["-mode", "scan", "-random", "block:200,line:200,strings:150,ends:100,all:200"], "TraceScan", [""]),
         ("drv-lint", ["-mode", "scan", "-cases", CASES + "/scan.ndjson"], "TraceScan", [""])]
    X = [("drv-lex", ["-universes", "strings:4,blocks:3,numbers:4,lines:3,punct:3,escapes:3,indents:4,all:2", "-random", "300", "-schemas", "100"], "TraceLex", [""])]
    def cli(mode, n, tr, props, *a):
        return ("drv-cli", ["-mode", mode, "-n", str(n), *a], tr, props)
    LI = [cli("lint", 80, "TraceLintCli", ["L05", "L09", "L10"]), cli("many", 40, "TraceLintCli", ["I01", "L09", "L10"])]
    CO = [cli("compare", 80, "TraceCompareCli", ["C12", "C13"]), cli("merge", 60, "TraceCompareCli", ["I01"])]
    FA = [cli("faults", 0, "TraceFault", ["I02"], "-cases", CASES + "/faults.ndjson")]
    if f == "pkg/compare/compare.go":
        return C + CO[:1]
    if f == "pkg/linter/rules.go":
        return R + LI[:1]
    if "/lexer/" in f:
        return X + S[:1]
    if f.startswith("cmd/linter") or f.startswith("pkg/linter"):
        return S + LI + FA
    if f.startswith("cmd/compare"):
        return CO + FA
    return LI + CO + FA

def sh(cmd, cwd, env, t=120):
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        out, _ = p.communicate(timeout=t)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 124, "timeout"

class Worker(threading.Thread):
    def __init__(self, k, q, res):
        super().__init__(daemon=True)
        self.k, self.q, self.res = k, q, res
        self.d = "%s/%d" % (W, k)
        self.env = dict(go_env(), GOCACHE=self.d + "/cache", GOFLAGS="-mod=mod -buildvcs=false", GOMAXPROCS="2")
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        os.chmod(self.d, 0o755)
        shutil.copytree("/repo", self.d + "/repo", ignore=shutil.ignore_patterns(".git"))
        shutil.copytree(V + "/driver", self.d + "/driver")
        p = self.d + "/driver/go.mod"
        s = open(p).read()
        open(p, "w").write(s.replace("=> /repo", "=> " + self.d + "/repo"))
        self.ref = {}
        for g in ("pkg/compare", "pkg/linter", "cmd/linter", "cmd/linter/lexer", "cmd/compare", "utils"):
            src = open(glob.glob("%s/repo/%s/*.go" % (self.d, g))[0]).read()
            open("%s/repo/%s/zz_mut.go" % (self.d, g), "w").write(re.search(r"^package \w+", src, re.M).group(0) + "\n" + HELP)
        for p in (self.d + "/repo/go.mod", self.d + "/driver/go.mod"):
            s = open(p).read()
            open(p, "w").write(re.sub(r"^go 1\.\d+.*$", "go 1.18", s, flags=re.M))

    def record(self, f):
        """runs the drivers; yields (hash, prefix, module, props) or an error"""
        built = set()
        for n, (drv, args, mod, props) in enumerate(plans(f)):
            if drv not in built:
                rc, o = sh(["go", "build", "-o", self.d + "/" + drv, "./" + drv], self.d + "/driver", self.env)
                if rc == 0 and drv == "drv-cli":
                    rc, o = sh(["go", "build", "-o", self.d + "/gql", "."], self.d + "/repo", self.env)
                if rc:
                    yield "driver does not build: " + o[-300:]
                    return
                    return
                built.add(drv)
            prefix = "%s/t%d" % (self.d, n)
            for x in glob.glob(prefix + ".*"):
                os.remove(x)
            cmd = [self.d + "/" + drv, "-out", prefix, "-shards", "1", "-seed", "7"] + args
            if drv == "drv-cli":
                cmd += ["-gql", self.d + "/gql", "-work", self.d + "/work"]
            rc, o = sh(cmd, self.d, self.env, 150)
            if rc:
                yield "driver fails: " + o[-300:]
                return
            h = hashlib.sha1(open(prefix + ".0.ndjson", "rb").read()).hexdigest()
            yield h, prefix, mod, props

    def judge(self, prefix, mod, prop):
        env = dict(self.env, PROP=prop, TRACE=prefix + ".0.ndjson")
        meta = self.d + "/meta"
        rc, o = sh(["java", "-Xmx2g", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Dfile.encoding=UTF-8", "-Xss64m", "-Djava.io.tmpdir=" + self.d, "-cp", CP, "tlc2.TLC", "-workers", "1",
                    "-metadir", meta, "-noGenerateSpecTE", "-config", mod + ".cfg", mod + ".tla"], SPEC, env, 300)
        shutil.rmtree(meta, ignore_errors=True)
        if rc != 0:
            return "broken"
        return o.count('"REJECT ')

    def one(self, m):
        p = self.d + "/repo/" + m["file"]
        src = open("/repo/" + m["file"], "rb").read()
        new = src[:m["s"]] + m["with"].encode() + src[m["e"]:]
        m["was"] = src[m["s"]:m["e"]].decode()
        m["text"] = new[new.rfind(b"\n", 0, m["s"]) + 1:new.find(b"\n", m["s"] + len(m["with"]))].decode("utf-8", "replace").strip()
        if m["file"] not in self.ref:
            open(p, "wb").write(src)
            self.ref[m["file"]] = list(self.record(m["file"]))
            again = self.record(m["file"])
            for a, b in zip(self.ref[m["file"]], again):
                if a[0] != b[0]:
                    print("not repeatable:", a, flush=True)
        open(p, "wb").write(new)
        try:
            rc, o = sh(["go", "build", "./..."], self.d + "/repo", self.env)
            if rc:
                return "uncompilable"
            rc, o = sh(["go", "test", "-vet=off", "./pkg/..."], self.d + "/repo", self.env, 60)
            if rc:
                return "killed by tests"
            m["flags"] = fl = {}
            for r, ref in zip(self.record(m["file"]), self.ref[m["file"]]):
                if isinstance(r, str):
                    return r
                h, prefix, mod, props = r
                if h == ref[0]:
                    continue
                for q in props:
                    k = "%s:%s" % (mod, q)
                    if not fl.get(k):
                        fl[k] = self.judge(prefix, mod, q)
                if any(fl.values()):
                    return "flagged"
            return "accepted" if fl else "same"
        finally:
            open(p, "wb").write(src)

    def run(self):
        while True:
            try:
                m = self.q.get_nowait()
            except queue.Empty:
                return
            try:
                m["result"] = self.one(m)
            except Exception as e:
                m["result"] = "error %r" % e
            self.res.append(m)

def main():
    out, files = sys.argv[1], sys.argv[2:]
    ms = []
    for f in files:
        o = subprocess.run([MUT, f], cwd="/repo", capture_output=True, text=True).stdout
        ms += [json.loads(x) for x in o.splitlines()]
    step = int(os.environ.get("STEP", "1"))
    ms = ms[::step]
    q, res = queue.Queue(), []
    for m in ms:
        q.put(m)
    ts = [Worker(k, q, res) for k in range(int(os.environ.get("WORKERS", "7")))]
    for t in ts:
        t.start()
    while any(t.is_alive() for t in ts):
        time.sleep(20)
        json.dump(list(res), open(out, "w"), indent=0)
        c = {}
        for m in list(res):
            c[m["result"][:20]] = c.get(m["result"][:20], 0) + 1
        print(len(res), "of", len(ms), c, flush=True)
    json.dump(list(res), open(out, "w"), indent=0)
    shutil.rmtree(W, ignore_errors=True)

main()

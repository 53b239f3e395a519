"""Shared machinery of the checks: building, running TLC, judging traces, writing evidence."""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class Broken(Exception):
    """The check itself failed: neither a pass nor a violation."""


def go_env():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], capture_output=True)
    if out.returncode == 0:
        for kv in out.stdout.split(b"\0"):
            if b"=" in kv:
                k, v = kv.decode().split("=", 1)
                if k not in ("PWD", "SHLVL", "_"):
                    env[k] = v
    return env


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="gqlverif-%s-" % prop)
        os.chmod(self.dir, 0o755)
        self.env = go_env()
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.stats, self.samples, self.rejects = [], {}, [], []
        self.assumptions = []
        self.extra = {}
        self.exhaustive = []
        self.procs = set()
        self.died = False

    # ---- pieces -------------------------------------------------------------------------------------------------
    def path(self, *a):
        return os.path.join(self.dir, *a)

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def run(self, cmd, timeout, cwd=None, env=None, ok=(0,), stdin=None):
        p = subprocess.Popen(cmd, cwd=cwd, env=env or self.env, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        self.procs.add(p)
        try:
            out, err = p.communicate(stdin, timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise Broken("timeout after %ss: %s" % (timeout, " ".join(cmd)[:200]))
        finally:
            self.procs.discard(p)
        out, err = out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
        if ok is not None and p.returncode not in ok:
            raise Broken("exit %d: %s\n%s\n%s" % (p.returncode, " ".join(cmd)[:300], out[-3000:], err[-3000:]))
        return p.returncode, out, err

    def drive(self, cmd, prefix, timeout=800):
        """Runs a driver as several processes that share the work."""
        def one(i):
            rc, out, err = self.run(cmd + ["-out", prefix, "-seed", str(self.seed), "-part", "%d/%d" % (i, CORES)], timeout, ok=None)
            self.ended(rc, out, err, cmd, "%s.now.%d" % (prefix, i))
        with ThreadPoolExecutor(CORES) as ex:
            list(ex.map(one, range(CORES)))

    def ended(self, rc, out, err, cmd, now=""):
        """A driver that ended by itself is in order; one that the code under test ended shows a violation."""
        if rc == 0:
            return
        what = (out + "\n" + err).strip()
        if rc == 3 or rc < 0:  # the driver's own trouble, or the system's
            raise Broken("exit %d: %s\n%s" % (rc, " ".join(cmd)[:300], what[-3000:]))
        rec = {}
        try:
            rec = json.load(open(now, encoding="utf-8"))
        except (OSError, ValueError):
            pass
        self.rejects.append((now, {"id": rec.get("id", "?"), "ended": "the process ended with status %d" % rc, "input": rec, "text": what[:2000]}))
        self.died = True

    def build(self, driver, *flags):
        out = self.path(driver)
        self.run(["go", "build", *flags, "-o", out, "./" + driver], 600, cwd=os.path.join(VERIF, "driver"))
        return out

    def build_gql(self):
        out = self.path("gql")
        self.run(["go", "build", "-o", out, "."], 600, cwd=REPO)
        return out

    # ---- TLC ----------------------------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=1, heap="3g", timeout=600, sim=None, expect=True):
        e = dict(self.env)
        e.update(env or {})
        meta = tempfile.mkdtemp(dir=self.dir, prefix="meta-")
        cmd = ["java", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               *([] if self.thorough or workers > 1 else ["-XX:TieredStopAtLevel=1"]), "-Dfile.encoding=UTF-8", "-Xss64m", "-Djava.io.tmpdir=" + self.dir,
               "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", (cfg or module) + ".cfg"]
        if sim:
            cmd += ["-simulate", "num=%d" % sim[0], "-depth", str(sim[1]), "-seed", str(self.seed)]
        cmd.append(module + ".tla")
        rc, out, err = self.run(cmd, timeout, cwd=SPEC, env=e, ok=None)
        shutil.rmtree(meta, ignore_errors=True)
        notes = {}
        for line in out.splitlines():
            m = re.match(r'^"([A-Z]+) (.*)"$', line)
            if m:
                try:
                    tag, body = json.loads(line).split(" ", 1)
                    notes.setdefault(tag, []).append(body if tag == "CASE" else json.loads(body))
                except ValueError:
                    raise Broken("unreadable TLC note: " + line[:500])
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if sim and not m:
            m = re.findall(r"(\d+) states checked", out) or re.findall(r"(\d+) states generated", out)
            gen = dist = int(m[-1]) if m else 0
        if rc != 0 and expect:
            raise Broken("TLC failed (%d) on %s:\n%s\n%s" % (rc, module, tail(out), err[-1500:]))
        return {"rc": rc, "notes": notes, "generated": gen, "distinct": dist, "out": out}

    def model(self, module, cfg=None, env=None, workers=CORES, timeout=800, sim=None, label=None, heap="6g"):
        """Model checks a design module; a failing invariant here is an error of the machinery."""
        t = time.time()
        r = self.tlc(module, cfg, env, workers, heap, timeout, sim)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append({"model": label or cfg or module, "states": r["distinct"], "transitions": r["generated"],
                            "mode": "simulation" if sim else "exhaustive", "seconds": round(time.time() - t, 1)})
        return r

    def cases(self, r, name="cases"):
        """Writes the cases a model emitted to a file, in a fixed order."""
        cs = sorted(set(r["notes"].get("CASE", [])))
        if not cs:
            raise Broken("the model emitted no cases")
        p = self.path(name + ".ndjson")
        with open(p, "w") as f:
            f.write("\n".join(cs) + "\n")
        return p

    def judge(self, module, prefix, shards, env=None, timeout=800, heap="3g", cfg=None, label=None):
        """Validates PREFIX.<i>.ndjson against a trace specification; collects rejected events."""
        if self.died:  # the trace ends somewhere; that it does is the violation
            return 0
        e = dict(env or {})
        t = time.time()
        files = ["%s.%d.ndjson" % (prefix, i) for i in range(shards)]
        files = [f for f in files if os.path.exists(f) and os.path.getsize(f) > 0]
        if not files:
            raise Broken("no events were recorded in " + prefix)

        def one(f):
            x = dict(e)
            x["TRACE"] = f
            return self.tlc(module, cfg, x, 1, heap, timeout)
        with ThreadPoolExecutor(CORES) as ex:
            rs = list(ex.map(one, files))
        inputs, nev = {}, 0
        telling = 0
        for r in rs:
            self.states += r["distinct"]
            self.transitions += r["generated"]
            st = r["notes"].get("STATS")
            if not st:
                raise Broken("no statistics from %s:\n%s" % (module, tail(r["out"])))
            for s in st:
                nev += s["events"]
                telling += s.get("telling", 0)
                add(self.stats, {k: v for k, v in s.items() if k not in ("events", "telling")})
            for rej in r["notes"].get("REJECT", []):
                self.rejects.append((prefix, rej))
        self.traces += telling
        self.events += nev
        self.models.append({"trace": label or os.path.basename(prefix), "spec": module, "events": nev, "telling": telling,
                            "rejected": sum(len(r["notes"].get("REJECT", [])) for r in rs), "seconds": round(time.time() - t, 1)})
        return nev

    def known(self, name, what, occurs):
        """A fixed input that shows a finding which is recorded, not repaired."""
        if not occurs:
            return
        with open(os.path.join(VERIF, "KNOWN_FINDINGS")) as f:
            if any(line.startswith("open: property=%s %s " % (self.prop, name)) for line in f):
                print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, name, what))
                self.extra.setdefault("known_findings", []).append(name)
                return
        self.rejects.append((self.path("probe"), {"id": name, "got": what}))

    def sample(self, prefix, k=1):
        """Takes the first readable inputs of a recorded trace as samples."""
        try:
            with open(sorted(glob.glob(glob.escape(prefix) + ".inputs*ndjson"))[0], encoding="utf-8") as f:
                for line in f:
                    if k <= 0:
                        break
                    if len(line) < 6000:
                        self.samples.append(json.loads(line))
                        k -= 1
        except (OSError, IndexError):
            pass

    # ---- the end --------------------------------------------------------------------------------------------------
    def evidence(self, level):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.events,
               "telling_traces": self.traces, "runs": self.models, "samples": self.samples[:6]}
        if self.stats:
            cov["histogram"] = self.stats
        if self.exhaustive:
            cov["enumerated_completely"] = self.exhaustive
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.rejects)}
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)

    def replay_file(self, prefix, rej):
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        rec = {"property": self.prop, "tier": self.tier, "seed": self.seed, "event": rej, "input": None}
        try:
            for name in glob.glob(glob.escape(prefix) + ".inputs*ndjson"):
                with open(name, encoding="utf-8") as f:
                    for line in f:
                        if json.dumps(rej.get("id"))[1:-1] in line and json.loads(line).get("id") == rej.get("id"):
                            rec["input"] = json.loads(line)
                            break
        except (OSError, ValueError):
            pass
        rec["again"] = "VERIF_SEED=%d python3 check.py %s" % (self.seed, self.prop)
        name = re.sub(r"[^A-Za-z0-9_.-]", "_", "%s-%s.json" % (self.prop, rej.get("id", "x")))
        p = os.path.join(d, name)
        with open(p, "w") as f:
            json.dump(rec, f, indent=1)
        return p

    def close(self):
        for p in list(self.procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)


def add(into, d):
    for k, v in d.items():
        if isinstance(v, dict):
            add(into.setdefault(k, {}), v)
        elif isinstance(v, (int, float)):
            into[k] = into.get(k, 0) + v


def tail(s, n=4000):
    return s[-n:]


def unique(rejects):
    return rejects

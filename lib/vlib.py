"""What all checks share: running TLC, driving the implementation, judging the traces, writing evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

GOENV = {
    "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOSUMDB": "off",
    "HOME": os.environ.get("HOME", "/root"), "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
    "PATH": "/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", ""),
}


class CheckError(Exception):
    """The check itself could not do its work. Says nothing about the implementation."""


def build_harness(out):
    """Builds the harness against the current working tree of /repo."""
    src = tempfile.mkdtemp(prefix="vh-src.")
    try:
        for f in os.listdir(os.path.join(VERIF, "harness")):
            shutil.copy(os.path.join(VERIF, "harness", f), src)
        if REPO != "/repo":
            p = os.path.join(src, "go.mod")
            s = open(p).read().replace("=> /repo", "=> " + REPO)
            open(p, "w").write(s)
        env = dict(os.environ, **GOENV)
        r = subprocess.run(["go", "build", "-o", out, "."], cwd=src, env=env, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("the harness does not build:\n" + r.stdout + r.stderr)
    finally:
        shutil.rmtree(src, ignore_errors=True)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vcheck-%s." % prop)
        self.spec = os.path.join(self.scratch, "spec")
        shutil.copytree(os.path.join(VERIF, "spec"), self.spec)
        self.states = self.transitions = self.accepted = 0
        self.stages, self.samples, self.assumptions = [], [], []
        self.violations, self.findings = [], []
        self.bin = None
        self.n = 0
        self._lock = threading.Lock()
        self._bin_lock = threading.Lock()
        self.known = {}
        self.incomplete = False

    # -- TLC ---------------------------------------------------------------
    def _cfg(self, cfg, consts):
        path = os.path.join(self.spec, cfg)
        if not consts:
            return cfg
        s = open(path).read()
        for k, v in consts.items():
            s, cnt = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?)%s\s*(=|<-).*$" % re.escape(k), lambda m: "%s%s %s" % (m.group(1), k, v if str(v).startswith("<-") else "= %s" % v), s)
            if not cnt:
                raise CheckError("no constant %s in %s" % (k, cfg))
        with self._lock:
            self.n += 1
            name = "%s.%d.cfg" % (cfg[:-4], self.n)
        open(os.path.join(self.spec, name), "w").write(s)
        return name

    def tlc(self, module, cfg, args=(), env=None, timeout=600, workers=1, mem="3g", consts=None, dfs=False):
        cfg = self._cfg(cfg, consts)
        with self._lock:
            self.n += 1
            meta = os.path.join(self.scratch, "meta%d" % self.n)
        cmd = ["java", "-Xmx" + mem, "-Xss16m", "-XX:+UseParallelGC"]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", TLA, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg]
        cmd += list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=self.spec, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC ran out of time on %s (%s)" % (module, cfg))
        shutil.rmtree(meta, ignore_errors=True)
        return r

    @staticmethod
    def _counts(out):
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        if m:
            return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m:
            return int(m[-1].replace(",", "")), 0
        return 0, 0

    def mc(self, module, cfg, timeout=600, workers=6, consts=None, mem="6g", args=(), simulate=None):
        """Model checks the specification itself: the design has the property."""
        t = time.time()
        args = list(args)
        if simulate:
            args += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        r = self.tlc(module, cfg, timeout=timeout, workers=workers, consts=consts, mem=mem, args=args)
        if r.returncode != 0:
            raise CheckError("model checking %s with %s failed:\n%s" % (module, cfg, r.stdout[-6000:] + r.stderr[-2000:]))
        gen, dist = self._counts(r.stdout)
        with self._lock:
            self.states += dist
            self.transitions += gen
            self.stages.append({"stage": "model checking", "module": module, "cfg": cfg, "constants": consts or {},
                                "distinct_states": dist, "states_generated": gen, "exhaustive": not simulate,
                                "wall_s": round(time.time() - t, 1)})
        return r

    def gen(self, module, cfg, simulate=None, consts=None, timeout=600, workers=1, keep=None, seed=None):
        """Has TLC write behaviours of the specification, as plans for a driver."""
        t = time.time()
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]),
                    "-seed", str(self.seed if seed is None else seed)]
        r = self.tlc(module, cfg, args=args, consts=consts, timeout=timeout, workers=workers)
        if r.returncode != 0:
            raise CheckError("generating from %s with %s failed:\n%s" % (module, cfg, r.stdout[-6000:] + r.stderr[-2000:]))
        plans, dup = [], set()
        for line in r.stdout.splitlines():
            if line.startswith('"PLAN '):
                s = json.loads(line)[5:]
                if s not in dup:
                    dup.add(s)
                    plans.append(json.loads(s))
        if not plans:
            raise CheckError("no behaviours came out of %s\n%s" % (module, r.stdout[-3000:]))
        gen, dist = self._counts(r.stdout)
        total = len(plans)
        if keep and len(plans) > keep:
            import random
            rng = random.Random(self.seed)
            plans = rng.sample(plans, keep)
        with self._lock:
            self.stages.append({"stage": "generating behaviours", "module": module, "cfg": cfg, "constants": consts or {},
                                "behaviours": total, "kept": len(plans), "wall_s": round(time.time() - t, 1)})
        return plans

    def selfcheck(self, gen, module, cfg, depth, num, consts=None, tconsts=None):
        """A trace specification that does not search has to accept what the specification itself does."""
        traces = self.gen(gen, gen + ".cfg", simulate=(num, depth), consts=consts)
        n, a = len(self.violations), self.accepted
        self.validate(module, cfg, traces, consts=tconsts, sample=0)
        self.accepted = a
        self.stages[-1]["stage"] = "validating behaviours of the specification"
        if len(self.violations) > n:
            raise CheckError("%s rejects behaviours of the specification: %s" % (module, json.dumps(self.violations[n])))

    # -- the implementation --------------------------------------------------
    def build(self):
        with self._bin_lock:
            if self.bin is None:
                out = os.path.join(self.scratch, "vh")
                build_harness(out)
                self.bin = out

    def drive(self, driver, plans, par=8, limit=90, timeout=None, env=None, seed=None, budget=None):
        """Runs plans against the implementation and returns the recorded traces, in the order of the plans."""
        self.build()
        t = time.time()
        # Runs come to an end early enough to be judged, also if most of what they wait for never happens.
        budget = budget or (150 if self.quick else 800)
        timeout = timeout or budget + limit + 60
        with self._lock:
            self.n += 1
            base = os.path.join(self.scratch, "drive%d" % self.n)
        pf, of, jf = base + ".plans", base + ".traces", base + ".journal"
        with open(pf, "w") as f:
            for p in plans:
                f.write(json.dumps(p) + "\n")
        e = dict(os.environ)
        e["GOTRACEBACK"] = "all"
        e.update(env or {})
        cmd = [self.bin, "-driver", driver, "-plans", pf, "-out", of, "-journal", jf, "-par", str(par),
               "-seed", str(self.seed if seed is None else seed), "-limit", "%ds" % limit, "-budget", "%ds" % budget]
        errf = open(base + ".stderr", "w+")
        try:
            r = subprocess.run(cmd, env=e, stdout=subprocess.DEVNULL, stderr=errf, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            raise CheckError("driver %s ran out of time" % driver)
        errf.seek(0)
        err = errf.read()
        errf.close()
        traces = {}
        if os.path.exists(of):
            for line in open(of):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                traces[d["id"]] = d
        if rc != 0:
            self._crashed(driver, rc, err, plans, traces, jf)
        out = []
        for i in range(1, len(plans) + 1):
            if i in traces:
                tr = traces[i]
                tr["driver"] = driver
                hang = of + ".hang%d" % i
                if os.path.exists(hang):
                    tr["goroutines"] = open(hang).read()[:200000]
                    if "perlin-network/noise" not in tr["goroutines"]:
                        raise CheckError("driver %s got stuck outside of noise" % driver)
                out.append(tr)
        if len(out) < len(plans) and rc == 0 and not any(x.get("goroutines") for x in out):
            if time.time() - t < budget:
                raise CheckError("driver %s lost traces" % driver)
            self.incomplete = True
        with self._lock:
            self.stages.append({"stage": "driving the implementation", "driver": driver, "scenarios": len(out),
                                "longest_ms": sorted(x.get("ms", 0) for x in out)[-5:],
                                "steps": sum(len(x["steps"]) for x in out), "wall_s": round(time.time() - t, 1)})
        return out

    def _crashed(self, driver, rc, err, plans, traces, jf):
        """The process died. If noise brought it down, that is what the traces under way end with."""
        m = re.search(r"(?m)^(panic: |fatal error: |unexpected fault|SIG)", err)
        if not m:
            raise CheckError("driver %s failed (%d):\n%s" % (driver, rc, err[-4000:]))
        stack = err[m.start():]
        first = stack.split("\n\n")[0:2]
        head = "\n\n".join(first)
        if "harness:" in stack.split("\n")[0] or ("perlin-network/noise" not in head and "fatal error" not in head):
            raise CheckError("driver %s crashed by itself:\n%s" % (driver, stack[:5000]))
        if "main.main" in head and "perlin-network/noise" not in head:
            raise CheckError("driver %s crashed by itself:\n%s" % (driver, stack[:5000]))
        # The topmost frame that is not the runtime's tells whose doing it is.
        frames = [x for x in re.findall(r"(?m)^([\w./*()\[\]-]+)\(", head) if not re.match(r"(panic|runtime|internal|sync|reflect|goroutine)\b", x)]
        if frames and frames[0].startswith("main."):
            raise CheckError("driver %s crashed by itself:\n%s" % (driver, stack[:5000]))
        running = set()
        for line in open(jf):
            i = int(line)
            running.add(i) if i > 0 else running.discard(-i)
        for i in running:
            if i not in traces:
                traces[i] = {"id": i, "plan": plans[i - 1], "steps": [{"ev": "crash"}], "crash": stack[:20000]}

    # -- judging -------------------------------------------------------------
    def validate(self, module, cfg, traces, consts=None, timeout=600, chunk=1500, known=None, dfs=False, sample=1, mem="3g"):
        """Has TLC decide which traces are behaviours of the specification."""
        if not traces:
            raise CheckError("nothing to validate for " + module)
        t = time.time()
        # No specification has a step for these.
        dead = [x for x in traces if x["steps"] and x["steps"][-1].get("ev") in ("crash", "hang")]
        for x in dead:
            self._reject(module, x, len(x["steps"]), "the process crashed" if x["steps"][-1]["ev"] == "crash" else "stuck", known)
        traces = [x for x in traces if not any(x is y for y in dead)]
        if not traces:
            return False
        chunks = [traces[i:i + chunk] for i in range(0, len(traces), chunk)]
        results = [None] * len(chunks)

        def one(i):
            try:
                f = os.path.join(self.scratch, "val-%s-%d-%d.json" % (module, id(traces), i))
                with open(f, "w") as fh:
                    for x in chunks[i]:
                        fh.write(json.dumps({"plan": x.get("plan") or {}, "steps": x["steps"]}) + "\n")
                r = self.tlc(module, cfg, env={"TRACE_FILE": f}, timeout=timeout, consts=consts, dfs=dfs, mem=mem)
                os.unlink(f)
                results[i] = r
            except Exception as ex:  # noqa
                results[i] = ex

        pend = list(range(len(chunks)))
        lock = threading.Lock()

        def worker():
            while True:
                with lock:
                    if not pend:
                        return
                    i = pend.pop(0)
                one(i)
        ths = [threading.Thread(target=worker) for _ in range(min(6, len(chunks)))]
        [x.start() for x in ths]
        [x.join() for x in ths]
        bad = 0
        states = 0
        gaveup = 0
        for i, r in enumerate(results):
            if isinstance(r, Exception):
                raise r
            out = r.stdout
            inv = re.search(r"(Invariant|property|Temporal property) (\S+) (is|was) violated", out)
            if not re.search(r'"BATCH %d"' % len(chunks[i]), out):
                if inv:
                    m = re.findall(r"(?m)^/\\ tr = (\d+)", out)
                    if m:
                        k = int(m[-1]) - 1
                        self._reject(module, chunks[i][k], None, "invariant %s violated" % inv.group(2), known)
                        bad += 1
                        continue
                # Values the specification knows nothing of: it has no step for them.
                m = re.findall(r"(?m)^/\\ tr = (\d+)", out)
                if m and "Attempted to" in out and "REJECT" not in out:
                    p = re.findall(r"(?m)^/\\ l = (\d+)", out)
                    self._reject(module, chunks[i][int(m[-1]) - 1], int(p[-1]) if p else None, "the specification knows nothing of this", known)
                    bad += 1
                    gaveup += len(chunks[i]) - 1
                    continue
                raise CheckError("TLC could not judge traces with %s:\n%s" % (module, out[-5000:] + r.stderr[-1000:]))
            gen, dist = self._counts(out)
            states += dist
            rej = set()
            for m in re.finditer(r'"REJECT (\d+) (\d+)"', out):
                k, pos = int(m.group(1)) - 1, int(m.group(2))
                if k not in rej:
                    rej.add(k)
                    bad += 1
                    self._reject(module, chunks[i][k], pos, "not a behaviour of the specification", known)
            undecided = len(re.findall(r'"GAVEUP (\d+) (\d+)"', out))
            gaveup += undecided
            with self._lock:
                self.accepted += len(chunks[i]) - len(rej) - undecided
        with self._lock:
            self.stages.append({"stage": "validating traces", "module": module, "cfg": cfg, "constants": consts or {},
                                "traces": len(traces), "rejected": bad, "undecided": gaveup, "states": states, "wall_s": round(time.time() - t, 1)})
            for x in traces[:sample]:
                s = json.dumps({"driver": x.get("driver"), "plan": x.get("plan"), "steps": x["steps"][:12]})
                self.samples.append(json.loads(s) if len(s) < 6000 else s[:6000])
        return bad == 0

    def _reject(self, module, trace, pos, why, known):
        if known:
            k = known(trace, pos)
            if k:
                with self._lock:
                    self.findings.append(k)
                return
        with self._lock:
            self.violations.append({"module": module, "pos": pos, "why": why, "trace": trace})

    def listed(self, key):
        """The text of a known finding of this property, if known_findings.txt lists it."""
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=%s key=%s (.*)" % (self.prop, re.escape(key)), line)
            if m:
                return m.group(1).strip()
        return None

    def validate_known(self, module, cfg, traces, key, deviation, consts=None, **kw):
        """Like validate. Traces that are behaviours only of a specification that deviates in the way a known finding
        says are reported as that."""
        n = len(self.violations)
        self.validate(module, cfg, traces, consts=consts, **kw)
        bad, self.violations = self.violations[n:], self.violations[:n]
        text = self.listed(key)
        again = [v for v in bad if text and v["trace"]["steps"] and v["trace"]["steps"][-1].get("ev") not in ("crash", "hang")]
        self.violations += [v for v in bad if not any(v is x for x in again)]
        if again:
            n = len(self.violations)
            self.validate(module, cfg, [v["trace"] for v in again], consts=dict(consts or {}, **deviation), **kw)
            # Violations are shown with where the specification proper gave up on them.
            if len(self.violations) - n < len(again):
                self.findings.append(text)

    # -- the end ---------------------------------------------------------------
    def finish(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(os.path.join(d, "replay"), exist_ok=True)
        rc = 0
        lines = []
        for f in os.listdir(os.path.join(d, "replay")):
            if f.startswith("%s-%s-" % (self.prop, self.tier)):
                os.unlink(os.path.join(d, "replay", f))
        for i, v in enumerate(self.violations[:5]):
            path = os.path.join(d, "replay", "%s-%s-%d.json" % (self.prop, self.tier, i + 1))
            v = dict(v, property=self.prop, seed=self.seed)
            p = v["pos"]
            if p and p <= len(v["trace"]["steps"]):
                v["rejected_step"] = v["trace"]["steps"][p - 1]
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            if i == 0:
                sys.stdout.write("rejected by %s at step %s: %s\n" % (v["module"], p, json.dumps(v.get("rejected_step"))[:1500]))
                sys.stdout.write("plan %s\nsteps %s\n" % (json.dumps(v["trace"].get("plan"))[:4000], json.dumps(v["trace"]["steps"][:p])[-8000:]))
            lines.append("VIOLATION property=%s replay=%s" % (self.prop, path))
            rc = 1
        for k in sorted(set(self.findings)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for x in lines:
            print(x)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.accepted, "samples": self.samples or ["none"],
                "stages": self.stages,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.incomplete and not rc:
            raise CheckError("not all scenarios could be run in time")
        return rc

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def parallel(*fs):
    """Runs functions side by side; raises what the first of them raised."""
    errs = []

    def wrap(f):
        try:
            f()
        except BaseException as ex:  # noqa
            errs.append(ex)
    ths = [threading.Thread(target=wrap, args=(f,)) for f in fs]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if errs:
        raise errs[0]

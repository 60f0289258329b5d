"""Check runner: builds drivers against /repo, records traces, validates them with TLC."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JAVA = shutil.which("java") or "java"


class ToolError(Exception):
    """The machinery failed: neither 'held' nor 'violated' can be claimed."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def src_digest():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    for root, dirs, files in os.walk(os.path.join(VERIF, "harness")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.out = os.path.join(VERIF, "out", pid)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.states = self.transitions = self.traces = self.events = 0
        self.model_states = 0
        self.samples, self.stages, self.findings = [], [], []
        self.t0 = time.time()
        self.nviol = 0
        self._n = 0

    # ---- building ------------------------------------------------------
    def build(self, driver, flags=()):
        src = os.path.join(VERIF, "harness", driver + ".cpp")
        cache = os.path.join(VERIF, "out", "bin")
        os.makedirs(cache, exist_ok=True)
        key = hashlib.sha256((src_digest() + driver + " ".join(flags)).encode()).hexdigest()[:20]
        exe = os.path.join(cache, driver + "-" + key)
        if not os.path.exists(exe):
            tmp = exe + ".%d" % os.getpid()
            cmd = ["/usr/bin/g++", "-std=c++14", "-O1", "-g0", "-w", "-pthread",
                   "-fsanitize=address", "-I" + os.path.join(REPO, "src"),
                   "-I" + os.path.join(VERIF, "harness"), *flags, src, "-o", tmp]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0:
                raise ToolError("driver %s does not compile:\n%s" % (driver, r.stderr[-4000:]))
            os.rename(tmp, exe)
            for f in os.listdir(cache):     # keep the cache small
                if f.startswith(driver + "-") and f != os.path.basename(exe):
                    try:
                        if time.time() - os.path.getmtime(os.path.join(cache, f)) > 3600:
                            os.unlink(os.path.join(cache, f))
                    except OSError:
                        pass
        return exe

    # ---- TLC -----------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=800, heap="6g", extra=()):
        self._n += 1
        meta = os.path.join(self.out, "meta%d" % self._n)
        cmd = [JAVA, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-checkpoint", "0", "-config", (cfg or module) + ".cfg", *extra, module + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, capture_output=True,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        m = re.findall(r"(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found", out)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        return out, gen, dist

    def model(self, module, cfg=None, timeout=600, min_states=1, workers=8, heap="6g"):
        """Exhaustive TLC run of a design model (independent of the code); <cfg>_T.cfg is its larger instance."""
        if self.thorough and os.path.exists(os.path.join(VERIF, "spec", (cfg or module) + "_T.cfg")):
            cfg, timeout = (cfg or module) + "_T", max(timeout, 800)
        t = time.time()
        out, gen, dist = self.tlc(module, cfg, timeout=timeout, workers=workers, heap=heap)
        if "No error has been found" not in out or dist < min_states:
            raise ToolError("design model %s/%s failed:\n%s" % (module, cfg, out[-6000:]))
        self.states += dist
        self.transitions += gen
        self.model_states += dist
        self.stages.append({"kind": "design model, exhaustive", "module": module, "cfg": cfg or module,
                            "distinct_states": dist, "transitions": gen, "wall_s": round(time.time() - t, 2)})

    def generate(self, driver, module, cfg=None, flags=(), timeout=300):
        """Cases written down by the specification, for a driver to replay; returns the file with them."""
        t = time.time()
        exe = self.build(driver, flags)
        shipped = os.path.join(self.out, "shipped.ndjson")
        _, rc, err = self.run_driver(exe, ["shipped", shipped], os.path.join(self.out, "unused"), 60)
        if rc != 0:
            raise Violation("%s: reading the shipped settings failed (%s): %s" % (driver, rc, err[-300:]), shipped)
        cases = os.path.join(self.out, "cases.ndjson")
        out, gen, dist = self.tlc(module, cfg, env={"OUT": cases, "SHIPPED": shipped}, timeout=timeout)
        if "No error has been found" not in out or not os.path.exists(cases):
            raise ToolError("%s wrote no cases:\n%s" % (module, out[-4000:]))
        flat, n = os.path.join(self.out, "cases.txt"), 0
        with open(cases) as f, open(flat, "w") as g:
            for line in f:
                c = json.loads(line)
                g.write("\t".join((c["f"], "\x1f".join("%s=%s" % tuple(kv) for kv in c["p"]),
                                   " ".join(c["want"]), c["file"])) + "\n")
                n += 1
        self.stages.append({"kind": "cases generated by the specification", "module": module, "cfg": cfg or module,
                            "cases": n, "wall_s": round(time.time() - t, 2)})
        return flat

    # ---- traces --------------------------------------------------------
    def run_driver(self, exe, args, trace, timeout):
        for p in (trace, trace + ".crash"):
            if os.path.exists(p):
                os.unlink(p)
        cmd = [exe, trace, str(self.seed), self.tier, *map(str, args)]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, errors="replace",
                               timeout=timeout, cwd=self.out,
                               # a driver needs far less: code that grows without end is stopped early
                               env=dict(os.environ, ASAN_OPTIONS=":".join(filter(None, (
                                   os.environ.get("ASAN_OPTIONS"), "hard_rss_limit_mb=9000")))))
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired as ex:
            rc, err = "timeout", (ex.stderr or b"").decode(errors="replace") if isinstance(ex.stderr, bytes) else str(ex.stderr)
        return cmd, rc, err

    def trace(self, driver, module, args=(), cfg=None, label=None, timeout=200, workers=8,
              min_events=1, flags=(), min_episodes=1, heap="6g"):
        """Record a trace of the real code and check that every step is one the spec allows."""
        t = time.time()
        exe = self.build(driver, flags)
        label = label or driver
        first = self._attempt(exe, driver, module, args, cfg, label, timeout, workers, heap)
        if first["bad"]:
            again = self._attempt(exe, driver, module, args, cfg, label, timeout, workers, heap)
            if not again["bad"]:
                raise ToolError("a rejection of %s was not repeated" % label)
            replay = os.path.join(self.out, "violation-%s.json" % label)
            with open(replay, "w") as f:
                json.dump({"property": self.pid, "driver": driver, "cmd": first["cmd"], "module": module,
                           "what": first["what"], "detail": first["detail"]}, f, indent=1)
            raise Violation(first["what"], replay)
        eps, evs = first["episodes"], first["events"]
        if evs < min_events or eps < min_episodes:
            raise ToolError("%s: trace too small (%d episodes, %d events)" % (label, eps, evs))
        self.states += first["distinct"]
        self.transitions += first["gen"]
        self.traces += eps
        self.events += evs
        self.stages.append({"kind": "trace validation", "driver": driver, "args": list(map(str, args)),
                            "module": module, "episodes": eps, "events": evs,
                            "wall_s": round(time.time() - t, 2)})
        if len(self.samples) < 4 and first["sample"]:
            self.samples.append({"stage": label, "episode": first["sample"]})

    def _attempt(self, exe, driver, module, args, cfg, label, timeout, workers, heap):
        trace = os.path.join(self.out, label + ".ndjson")
        cmd, rc, err = self.run_driver(exe, args, trace, timeout)
        res = {"bad": False, "cmd": " ".join(cmd), "what": "", "detail": None}
        if rc == 77:
            raise ToolError("driver %s: harness error: %s" % (driver, err[-2000:]))
        if rc != 0:
            crash = ""
            if os.path.exists(trace + ".crash"):
                crash = open(trace + ".crash", errors="replace").read()[-20000:]
            res.update(bad=True, what="%s: the code under test %s: %s" % (
                label, "did not finish" if rc == "timeout" else "aborted (%s)" % rc, err.strip()[-300:]),
                detail={"stderr": err[-4000:], "episode_so_far": crash})
            return res
        total = eps = evs = 0
        sample = None
        with open(trace) as f:
            for line in f:
                n = line.count('{"op":')
                eps += 1
                evs += n
                total += n + 1
                if sample is None and len(line) < 3000 and n > 2:
                    sample = json.loads(line)
        if sample is None:
            with open(trace) as f:
                sample = f.readline()[:1500]
        out, gen, dist = self.tlc(module, cfg, env={"TRACE": trace}, workers=workers,
                                  timeout=700, heap=heap)
        if "Invariant Ok is violated" in out or "Invariant Ok violated" in out:
            det = out[out.find("Invariant Ok"):]
            bad = re.findall(r'/\\ bad = "([^"]*)"', det)
            e = re.findall(r"/\\ e = (\d+)", det)
            l = re.findall(r"/\\ l = (\d+)", det)
            ep = ev = None
            if e and l:
                with open(trace) as f:
                    for i, line in enumerate(f, 1):
                        if i == int(e[-1]):
                            rec = json.loads(line)
                            ev = rec["ev"][int(l[-1]) - 1] if int(l[-1]) >= 1 else None
                            ep = {k: v for k, v in rec.items() if k != "ev"}
                            ep["events_before"] = rec["ev"][: int(l[-1]) - 1][-60:]
            what = "%s: step %s of episode %s is not allowed by %s: %s" % (
                label, l[-1:] and l[-1], e[-1:] and e[-1], module, bad[-1:] and bad[-1])
            res.update(bad=True, what=what, detail={"event": ev, "episode": ep, "tlc": det[-8000:]})
            return res
        m = re.search(r"(Attempted to [^\n]*|In evaluation, the identifier[^\n]*|Overflow when computing[^\n]*|"
                      r"The first argument of [^\n]*|The second argument of [^\n]*|Evaluating an expression of the form [^\n]*)", out)
        if m and "No error has been found" not in out:
            # what was recorded lies outside everything the specification gives a meaning to
            res.update(bad=True, what="%s: a recorded step is none %s can judge: %s" % (label, module, m.group(1)),
                       detail={"tlc": out[-8000:]})
            return res
        if "No error has been found" not in out or dist != total:
            raise ToolError("TLC failed on %s (%d distinct, expected %d):\n%s" % (module, dist, total, out[-5000:]))
        res.update(gen=gen, distinct=dist, episodes=eps, events=evs, sample=sample)
        return res

    def scenarios(self, driver, args=("findings",), timeout=120):
        """Run the scenarios of recorded findings; those listed may fail, any other failure is a violation."""
        exe = self.build(driver)
        cmd, rc, err = self.run_capture(exe, args, timeout)
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            known = {k["id"]: k for k in json.load(f)["findings"] if k["property"] == self.pid}
        seen = 0
        for line in rc.splitlines():
            sid, _, res = line.partition(" ")
            seen += 1
            if res == "ok":
                continue
            if sid in known:
                text = known[sid]["what"]
                print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
                self.findings.append({"id": sid, "what": text})
            else:
                replay = os.path.join(self.out, "violation-%s.json" % sid)
                with open(replay, "w") as f:
                    json.dump({"property": self.pid, "cmd": cmd, "what": line}, f, indent=1)
                raise Violation("scenario %s fails" % sid, replay)
        if not seen:
            raise ToolError("no scenario ran: %s" % err)
        self.stages.append({"kind": "finding scenarios", "driver": driver, "scenarios": seen})

    def run_capture(self, exe, args, timeout):
        cmd = [exe, os.path.join(self.out, "scenarios.ndjson"), str(self.seed), self.tier, *map(str, args)]
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, cwd=self.out)
        return " ".join(cmd), r.stdout, r.stderr

    def evidence(self, violations, extra=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "design_model_states": self.model_states,
               "stages": self.stages, "samples": self.samples or [{"note": "no trace completed"}]}
        if self.findings:
            cov["known_findings"] = self.findings
        cov.update(extra or {})
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
                       "coverage": cov,
                       "assumptions": ["TLC and the JSON trace reader are correct",
                                       "the driver reports what the public API returned"],
                       "wall_s": round(time.time() - self.t0, 2), "violations": violations}, f, indent=1)


def main(pid, fn):
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = Ctx(pid, tier, seed)
    try:
        fn(ctx)
    except Violation as v:
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (pid, v.replay))
        ctx.evidence(1)
        return 1
    except ToolError as ex:
        print("CHECK ERROR: %s" % ex, file=sys.stderr)
        ctx.evidence(0, {"error": str(ex)[:500]})
        return 2
    ctx.evidence(0)
    print("%s: held; %d traces / %d events validated, %d model states, %.1f s" %
          (pid, ctx.traces, ctx.events, ctx.model_states, time.time() - ctx.t0))
    return 0

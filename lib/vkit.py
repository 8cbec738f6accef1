"""Machinery shared by all checks: run TLC, record the implementation, validate traces, write evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")   # the override serves mutation experiments only
VENV_PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """The check itself failed; this is not a verdict about the property."""


def _nonull(x):
    """TLC's JSON reader has no null."""
    if isinstance(x, dict):
        return {k: _nonull(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_nonull(v) for v in x]
    return "none" if x is None else x


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.transitions = self.validated = self.behaviours = 0
        self.samples, self.violations, self.models, self.assumptions = [], [], [], []
        self.clause_counts = {}
        self._cls = None

    # ---- TLC ----------------------------------------------------------------------------------------------
    def classes(self):
        if self._cls is None:
            self._cls = os.path.join(self.work, "cls")
            os.makedirs(self._cls)
            src = os.path.join(VERIF, "lib", "java")
            r = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", self._cls] +
                               [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".java")],
                               capture_output=True, text=True)
            if r.returncode:
                raise MachineryError("javac failed: " + r.stderr)
        return self._cls

    def tlc(self, module, cfg, emit=None, env=None, workers="auto", timeout=600, simulate=None, depth=None, count=True):
        """Model check `module` with the text `cfg`.  Any error or violated invariant of the model is a machinery error."""
        tag = "%s-%d" % (module, len(self.models))
        cfgf = os.path.join(self.work, tag + ".cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        if emit:
            e["EMIT"] = emit
            open(emit, "w").close()
        meta = os.path.join(self.work, "meta-" + tag)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx8g", "-Xss64m", "-cp", self.classes() + ":" + JARS,
               "-DTLA-Library=" + os.path.join(VERIF, "spec"), "tlc2.TLC", "-noGenerateSpecTE",
               "-config", cfgf, "-metadir", meta, "-workers", str(workers)]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100), "-seed", str(self.seed)]
        cmd.append(os.path.join(VERIF, "spec", module + ".tla"))
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=self.work, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s" % module)
        out = r.stdout
        shutil.rmtree(meta, ignore_errors=True)
        if r.returncode != 0:
            raise MachineryError("TLC failed on %s (exit %d):\n%s\n%s" % (module, r.returncode, out[-6000:], r.stderr[-2000:]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            gen, dist = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r"The number of states generated: (\d+)", out)
            gen = dist = int(m[-1]) if m else 0
        if count:
            self.states += dist
            self.transitions += gen
        if emit and "TRACE" not in e:
            self.behaviours += sum(1 for _ in open(emit))
        self.models.append({"module": module, "distinct": dist, "generated": gen, "wall_s": round(time.time() - t0, 2)})
        return dist

    # ---- implementation -----------------------------------------------------------------------------------
    def record(self, harness, behaviours=None, args=None, timeout=None):
        """Run the real code in a subprocess; returns the path of the recorded trace (ndjson)."""
        out = os.path.join(self.work, "trace-%s-%d.ndjson" % (harness, len(self.models)))
        e = dict(os.environ)
        e.update({"PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": os.path.join(self.work, "pyc"),
                  "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
                  "MPLBACKEND": "Agg", "VERIF_REPO_ROOT": REPO, "TMPDIR": self.work,
                  "PYTHONPATH": REPO + ":" + os.path.join(VERIF, "lib") + ":" + os.path.join(VERIF, "harness")})
        cmd = [VENV_PY, os.path.join(VERIF, "harness", harness + ".py"), "--out", out, "--seed", str(self.seed),
               "--tier", self.tier, "--prop", self.prop]
        if behaviours:
            cmd += ["--beh", behaviours]
        for k, v in (args or {}).items():
            cmd += ["--set", "%s=%s" % (k, v)]
        log = os.path.join(self.work, "rec.log")
        with open(log, "w") as lf:
            try:
                r = subprocess.run(cmd, cwd=self.work, env=e, stdout=lf, stderr=subprocess.STDOUT, timeout=timeout or (400 if self.tier == "quick" else 7200))
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        text = open(log, errors="replace").read()
        if rc != 0:
            if "HARNESS-BUG" in text:
                raise MachineryError("recorder failed: " + text[-4000:])
            self.violation("the implementation could not be run (%s)" % rc, {"log": text[-4000:]})
            return None
        return out

    def violation(self, clause, detail):
        self.violations.append({"clause": clause, "detail": detail})

    def validate(self, module, trace, cfg="SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n", timeout=700, chunk=None):
        """Check recorded behaviours against the specification: every record gets a verdict."""
        if trace is None:
            return
        recs = [json.loads(x) for x in open(trace)]
        bad = [r for r in recs if "crash" in r]
        for r in bad:
            self.violation("the implementation failed in a way the harness cannot interpret: " + str(r["crash"])[:300], r)
        recs = [r for r in recs if "crash" not in r]
        if not recs:
            if not bad:
                raise MachineryError("no records in trace")
            return
        recs = [_nonull(r) for r in recs]
        for i, r in enumerate(recs):
            r["id"] = i + 1
        path = trace + ".in"
        with open(path, "w") as f:
            for r in recs:
                f.write(json.dumps(r) + "\n")
        verd = trace + ".verdict"
        self.tlc(module, cfg, emit=verd, env={"TRACE": path}, timeout=timeout)
        got = {}
        for line in open(verd):
            v = json.loads(line)
            got.setdefault(v["id"], []).extend(v["fails"])
        missing = [r["id"] for r in recs if r["id"] not in got]
        if missing:
            raise MachineryError("%s gave no verdict for %d records, e.g. %s" % (module, len(missing), json.dumps(recs[missing[0] - 1])[:1500]))
        self.validated += len(recs)
        for r in recs:
            if "maybe" in got[r["id"]] and "ok" not in got[r["id"]]:      # several behaviours of the specification were tried
                self.violation("no behaviour of the specification matches the log", r)
            for fl in got[r["id"]]:
                p, _, c = fl.partition(" ")
                self.clause_counts[p] = self.clause_counts.get(p, 0) + 1
                if p == self.prop:
                    self.violation(c, r)
        step = max(1, len(recs) // 3)
        for r in recs[::step][:3]:
            self.samples.append(json.loads(json.dumps(r)) if len(json.dumps(r)) < 3000 else {"id": r["id"], "head": json.dumps(r)[:1500]})

    # ---- verdict ------------------------------------------------------------------------------------------
    def known(self):
        path = os.path.join(VERIF, "known_findings.jsonl")
        out = []
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if line and not line.startswith("#") and line.startswith("{"):
                    k = json.loads(line)
                    if k.get("property") == self.prop and k.get("status") == "known":
                        out.append(k)
        return out

    def finish(self):
        known = self.known()
        new, hits = [], {}
        for v in self.violations:
            text = v["clause"] + " " + json.dumps(v["detail"], sort_keys=True)
            k = next((k for k in known if all(s in text for s in k["match"])), None)
            if k:
                hits[k["what"]] = hits.get(k["what"], 0) + 1
            else:
                new.append(v)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.validated,
                           "behaviours_generated_by_the_model": self.behaviours,
                           "models": self.models, "samples": self.samples[:6] or ["none"]},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        evd = os.path.join(VERIF, "evidence") if REPO == "/repo" else REPO + "-evidence"
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if new:
            rd = os.path.join(evd, "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.prop + ".json")
            with open(rp, "w") as f:
                json.dump(new[:20], f, indent=1)
            seen = {}
            for v in new:
                seen[v["clause"]] = seen.get(v["clause"], 0) + 1
            for c, n in sorted(seen.items(), key=lambda x: -x[1])[:12]:
                print("  violated: %s (%d cases)" % (c, n))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if os.environ.get("VERIF_DEBUG"):
            print(self.clause_counts)
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (self.prop, self.states, self.transitions, self.validated, time.time() - self.t0))
        return 0

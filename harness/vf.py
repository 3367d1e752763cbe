"""Orchestration shared by all checks: runs the code under test (Jython) and TLC, collects verdicts,
writes the evidence file and reports violations.  Contains no knowledge of the formats under test."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYD7A_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JY = os.path.join(VERIF, "harness", "jy")
CPUS = max(2, min(8, os.cpu_count() or 2))
TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """The check itself does not work (exit code 2)."""


class Check:
    def __init__(self, pid, level, rule):
        self.pid, self.level = pid, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        self.cov = {"rule": rule, "samples": []}
        self.assumptions = []
        self.violations = []          # (clause, payload)
        self.known = {}               # text -> count
        self.counts = {}
        self.findings = {}            # clause -> text, from the committed list
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for l in f:
                m = re.match(r"finding: property=%s \[([^\]]*)\] (.*)" % pid, l)
                if m: self.findings[m.group(1)] = m.group(2).strip()
        self.states = self.transitions = 0

    # -------------------------------------------------------------- scratch
    def path(self, name): return os.path.join(self.work, name)

    def write_nd(self, name, items):
        p = self.path(name)
        with open(p, "w") as f:
            for it in items: f.write(json.dumps(it, separators=(",", ":")) + "\n")
        return p

    def read_nd(self, p):
        with open(p) as f: return [json.loads(l) for l in f if l.strip()]

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    # -------------------------------------------------------------- the code under test
    def jython(self, script, reqs, workers=CPUS, timeout=None, args=(), heap="700m", classes=None, idle=None):
        """Distribute requests over worker JVMs.  Returns the results in order; a request whose processing
        did not come back (hang or crash of the interpreter) gets {"dead": why}."""
        if not reqs: return []
        timeout = timeout or (900 if self.thorough else 400)
        idle = idle or (300 if self.thorough else 100)
        workers = max(1, min(workers, len(reqs)))
        n = self.counts.get("jy", 0); self.counts["jy"] = n + 1
        procs = []
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", JYTHONPATH=JY + ":/opt/jydeps/site" + (":" + classes if classes else ""), PYTHONHASHSEED="0",
                   PYD7A_REPO=REPO, HOME=self.work, LC_ALL="C.UTF-8")
        for w in range(workers):
            part = reqs[w::workers]
            i = self.write_nd("rq-%d-%d" % (n, w), part)
            o = self.path("rs-%d-%d" % (n, w))
            open(o, "w").close()
            cmd = ["java", "-Xmx" + heap, "-Xss4m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Djava.io.tmpdir=" + self.work, "-cp", "/usr/share/java/jython.jar" + (":" + classes if classes else ""),
                   "-Dpython.home=/usr/share/jython", "-Dpython.executable=/usr/bin/jython",
                   "-Dpython.cachedir.skip=true", "org.python.util.jython", "-B", os.path.join(JY, script), i, o] + list(args)
            err = open(self.path("err-%d-%d" % (n, w)), "w+")
            procs.append((subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=err, cwd=self.work), part, o, err))
        res = [None] * len(reqs)
        # a worker that answers nothing for a while hangs on the request it is at
        deadline, hung, last = time.time() + timeout, set(), {w: (0, time.time()) for w in range(len(procs))}
        while any(p.poll() is None for p, _, _, _ in procs):
            time.sleep(0.05)
            now = time.time()
            for w, (p, part, o, err) in enumerate(procs):
                if p.poll() is not None: continue
                n = os.path.getsize(o)
                if n != last[w][0]: last[w] = (n, now)
                if now > deadline or now - last[w][1] > idle:
                    p.kill(); p.wait(); hung.add(w)
        for w, (p, part, o, err) in enumerate(procs):
            why = "hang" if w in hung else None
            rc = p.returncode
            out = []
            with open(o) as f:
                for l in f:
                    if l.endswith("\n"):
                        try: out.append(json.loads(l))
                        except ValueError: break
            if len(out) < len(part):
                err.seek(0); text = err.read()[-3000:]
                if why is None and "READY" not in text and not out:
                    raise Machinery("driver %s did not start: rc=%s %s" % (script, rc, text))
                why = why or "crash rc=%s %s" % (rc, text[-600:])
                if len(out) == 0 and why == "hang" and "READY" not in text:
                    raise Machinery("driver %s did not start in time" % script)
            for k in range(len(part)):
                if k < len(out): res[w + k * workers] = out[k]
                elif k == len(out): res[w + k * workers] = {"dead": why}
                else: res[w + k * workers] = {"skipped": 1}
            err.close()
        return res

    def java(self):
        """the scheduler's trace function, compiled into the scratch directory"""
        d = self.path("classes")
        if not os.path.isdir(d):
            os.mkdir(d)
            src = os.path.join(VERIF, "harness", "java", "Th.java")
            r = subprocess.run(["javac", "-nowarn", "-cp", "/usr/share/java/jython.jar", "-d", d, src], capture_output=True, text=True)
            if r.returncode: raise Machinery("javac: " + r.stderr[-1500:])
        return d

    # -------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=CPUS, timeout=None, args=(), heap="6g", ok_codes=(0,), simulate=None):
        """Run TLC.  Returns dict(out, rc, states, distinct)."""
        timeout = timeout or (1500 if self.thorough else 600)
        n = self.counts.get("tlc", 0); self.counts["tlc"] = n + 1
        meta = self.path("meta-%d" % n); os.makedirs(meta, exist_ok=True)
        cp = cfg
        if "\n" in cfg:
            cp = self.path("cfg-%d.cfg" % n)
            with open(cp, "w") as f: f.write(cfg)
        e = dict(os.environ); e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + self.work, "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet",
               "-XX:MaxDirectMemorySize=2g", "-cp", TLC_CP + ":" + SPEC, "tlc2.TLC", "-config", cp, "-metadir", meta,
               "-workers", str(workers), "-nowarning", "-noGenerateSpecTE"] + list(args) + [os.path.join(SPEC, module + ".tla")]
        out = self.path("tlc-%d.out" % n)
        with open(out, "w") as f:
            try: rc = subprocess.run(cmd, env=e, stdout=f, stderr=subprocess.STDOUT, cwd=self.work, timeout=timeout).returncode
            except subprocess.TimeoutExpired: raise Machinery("TLC timed out on %s" % module)
        text = open(out).read()
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct", text)
        g = int(m[-1][0].replace(",", "")) if m else 0
        d = int(m[-1][1].replace(",", "")) if m else 0
        if ok_codes is not None and rc not in ok_codes:
            raise Machinery("TLC failed on %s (rc %s):\n%s" % (module, rc, text[-3500:]))
        return dict(out=text, rc=rc, generated=g, distinct=d)

    def layouts(self):
        if not hasattr(self, "_layouts"):
            self.tlc("ExportLayouts", "INIT Init\nNEXT Next\n", env={"OUT": self.path("layouts.json")}, workers=1)
            self._layouts = json.load(open(self.path("layouts.json")))
        return self._layouts

    def judge(self, module, events, env=None, timeout=None):
        """Evaluate Verdict(event) of `module` on every event.  Violations are recorded."""
        if not events: return []
        p = self.write_nd("trace-%d" % self.counts.get("tlc", 0), events)
        e = {"TRACE": p, "STRIDE": 64}
        e.update(env or {})
        r = self.tlc(module, "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", env=e, timeout=timeout)
        stride = min(64, len(events))
        if r["distinct"] != len(events) + stride:
            raise Machinery("TLC evaluated %d states for %d events\n%s" % (r["distinct"], len(events), r["out"][-3000:]))
        self.states += r["distinct"]; self.transitions += r["generated"]
        fails = []
        for m in re.finditer(r'<<\s*"FAIL",\s*(\d+),\s*"([^"]*)"\s*>>', r["out"]):
            i, clause = int(m.group(1)) - 1, m.group(2)
            fails.append((i, clause))
        tags = {}
        for m in re.finditer(r'<<\s*"TAG",\s*"([^"]*)"\s*>>', r["out"]): tags[m.group(1)] = tags.get(m.group(1), 0) + 1
        for i, clause in sorted(set(fails)):
            if clause.startswith("machinery"): raise Machinery("%s: %s" % (clause, json.dumps(events[i])[:1500]))
            t = self.findings.get(clause)
            if t: self.known[t] = self.known.get(t, 0) + 1
            else: self.violation(clause, events[i])
        return fails

    def judge_traces(self, module, traces, cfg="", env=None, timeout=None):
        """Stateful validation: `module` explores every recorded history and prints <<"OK", n>> or
        <<"FAIL", n, clause>> exactly once per history."""
        if not traces: return
        p = self.write_nd("trace-%d" % self.counts.get("tlc", 0), traces)
        e = {"TRACE": p}; e.update(env or {})
        r = self.tlc(module, "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + cfg, env=e, timeout=timeout)
        ok = {int(x) for x in re.findall(r'<<\s*"OK",\s*(\d+)\s*>>', r["out"])}
        fails = {}
        for m in re.finditer(r'<<\s*"FAIL",\s*(\d+),\s*"([^"]*)"\s*>>', r["out"]): fails.setdefault(int(m.group(1)), m.group(2))
        self.states += r["distinct"]; self.transitions += r["generated"]
        if len(ok | set(fails)) != len(traces):
            raise Machinery("TLC judged %d of %d histories\n%s" % (len(ok | set(fails)), len(traces), r["out"][-3000:]))
        for n, clause in sorted(fails.items()):
            if "machinery" in clause: raise Machinery("%s: %s" % (clause, json.dumps(traces[n - 1])[:1500]))
            t = self.findings.get(clause)
            if t: self.known[t] = self.known.get(t, 0) + 1
            else: self.violation(clause, traces[n - 1])
        return fails

    def model(self, module, cfg, env=None, must=None, timeout=None):
        """Check a model of the specification.  A failure is a defect of the specification, not of the code."""
        r = self.tlc(module, cfg, env=env, timeout=timeout)
        self.states += r["distinct"]; self.transitions += r["generated"]
        self.cov.setdefault("models", []).append({"module": module, "distinct_states": r["distinct"], "generated": r["generated"], "env": env or {}})
        return r

    # -------------------------------------------------------------- verdicts
    def violation(self, clause, payload):
        self.violations.append((clause, payload))

    def sample(self, x):
        if len(self.cov["samples"]) < 3: self.cov["samples"].append(x)

    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n

    def finish(self):
        cov = dict(self.cov)
        if self.level == "model_checking":
            cov["states"], cov["transitions"] = self.states, self.transitions
            cov.setdefault("traces_validated_against_impl", cov.get("evaluations", 0))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1, sort_keys=True)
        for t, n in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s (%d cases in this run)" % (self.pid, t, n))
        if self.violations:
            d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
            if os.environ.get("VF_DUMP"): json.dump([{"clause": c, "case": p} for c, p in self.violations], open(os.environ["VF_DUMP"], "w"))
            rp = os.path.join(d, "%s-%d.json" % (self.pid, self.seed))
            with open(rp, "w") as f:
                json.dump([{"clause": c, "case": p} for c, p in self.violations[:20]], f, indent=1)
            by = {}
            for c, _ in self.violations: by[c] = by.get(c, 0) + 1
            for c, n in sorted(by.items()): print("  %s: %d" % (c, n))
            c, pl = self.violations[0]
            print("  first:", c, json.dumps(pl)[:1500])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s tier=%s seed=%d %.1fs %s" % (self.pid, self.tier, self.seed, time.time() - self.t0,
              {k: v for k, v in cov.items() if isinstance(v, int)}))
        return 0


def main(run, pid, level, rule):
    c = Check(pid, level, rule)
    rc = 2
    try:
        run(c)
        rc = c.finish()
    except Machinery as e:
        if c.violations:                      # a violation was already established
            rc = c.finish()
        else:
            print("ERROR", pid, e)
    finally:
        if not os.environ.get("VF_KEEP"): shutil.rmtree(c.work, ignore_errors=True)
        else: print("work dir", c.work)
    sys.exit(rc)

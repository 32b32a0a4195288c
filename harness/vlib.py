"""Machinery shared by all checks: scratch build of /repo, TLC runs, drivers,
verdict bookkeeping, evidence.  No knowledge of any property lives here."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLA = ["/opt/veriftools/tla/tla2tools.jar",
       "/opt/veriftools/tla/CommunityModules-deps.jar"]
SPEC = os.path.join(VERIF, "spec")


class Machinery(Exception):
    """The check itself failed: no verdict."""


class Ctx(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vchk-%s-" % prop)
        self.states = self.transitions = self.traces = self.events = 0
        self.kinds = {}
        self.samples = []
        self.fails = []        # (trace line dict, event index, [clauses])
        self.models = []       # design-level model checking runs
        self.canaries = self.canary_missed = 0
        self.notes = []
        self._lib = None

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # -- the implementation -------------------------------------------------
    def lib(self):
        """Copy /repo's working tree to scratch, build it there."""
        if self._lib:
            return self._lib
        dst = self.path("lib")
        os.mkdir(dst)
        ign = shutil.ignore_patterns("*.so", "__pycache__", "*.pyc",
                                     "cexpressions.c", "build", "*.egg-info")
        shutil.copytree(os.path.join(REPO, "electrode"),
                        os.path.join(dst, "electrode"), ignore=ign)
        for f in os.listdir(REPO):
            p = os.path.join(REPO, f)
            if os.path.isfile(p) and f.endswith((".py", ".rst", ".md", ".txt",
                                                 ".cfg", ".in", ".toml")):
                shutil.copy(p, dst)
        env = dict(os.environ, CFLAGS="-DPyUnicode_GetSize=PyUnicode_GetLength",
                   PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace"],
                           cwd=dst, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=600)
        if r.returncode:
            raise Machinery("build failed:\n" + r.stdout.decode(errors="replace")[-3000:])
        self._lib = dst
        return dst

    def drive(self, driver, out="trace.ndjson", inp=None, args=(), timeout=600):
        """Run a driver on the real code; it writes scenario lines to `out`."""
        lib = self.lib()
        work = self.path("work")
        os.makedirs(work, exist_ok=True)
        outp = self.path(out)
        env = dict(os.environ, PYTHONPATH=os.pathsep.join(
                       [lib, os.path.join(VERIF, "harness")]),
                   PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                   MPLBACKEND="Agg", MPLCONFIGDIR=self.path("mpl"),
                   VCHK_LIB=lib, VCHK_OUT=outp, VCHK_IN=inp or "",
                   VCHK_SEED=str(self.seed), VCHK_TIER=self.tier,
                   PYTHONWARNINGS="ignore")
        cmd = [PY, os.path.join(VERIF, "harness", "drv", driver)] + list(args)
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=work, env=env, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            rc, txt = p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            rc, txt = -signal.SIGALRM, (e.stdout or b"").decode(errors="replace")
        self.notes.append("driver %s: %.1fs" % (driver, time.time() - t))
        if rc != 0:
            # The driver guards every call into the code under test; it only
            # ends early if the code kills or hangs the interpreter, cannot be
            # imported, or the driver is broken.
            if rc < 0 or "IMPLEMENTATION-UNUSABLE" in txt:
                self.fails.append(({"key": "driver", "driver": driver,
                                    "output": txt[-2000:]}, 0,
                                   ["implementation_unusable_rc_%d" % rc]))
                return None
            last = ([""] + [l for l in txt.splitlines() if re.match(r"[\w.]+(Error|Exception|Interrupt|Timeout)\b", l)])[-1]
            if rc == 1 and last and not last.startswith(("ImportError", "ModuleNotFoundError", "MemoryError", "OSError",
                    "FileNotFoundError", "PermissionError", "BlockingIOError", "SyntaxError", "json.")):
                # what the code gave is not even of the form that can be recorded
                self.fails.append(({"key": "driver", "driver": driver,
                                    "output": txt[-3000:]}, 0, ["result_not_recordable"]))
                return None
            raise Machinery("driver %s failed (%s):\n%s" % (driver, rc, txt[-4000:]))
        return outp

    # -- TLC ----------------------------------------------------------------
    def java(self):
        d = self.path("java")
        if not os.path.isdir(d):
            os.mkdir(d)
            src = [os.path.join(SPEC, "java", f)
                   for f in os.listdir(os.path.join(SPEC, "java")) if f.endswith(".java")]
            r = subprocess.run(["javac", "-nowarn", "-cp", ":".join(TLA), "-d", d] + src,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise Machinery("javac: " + r.stdout.decode())
        return d

    def tlc(self, module, cfg=None, env=None, extra=(), timeout=int(os.environ.get("VCHK_TLC_TIMEOUT", "800")), workers=8,
            heap="10g"):
        """Run TLC; returns a dict with the counts and the printed values."""
        meta = tempfile.mkdtemp(dir=self.dir, prefix="meta-")
        cfgp = os.path.join(meta, "m.cfg")
        if cfg is None:
            cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
        with open(cfgp, "w") as f:
            f.write(cfg)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC",
               "-cp", ":".join([self.java()] + TLA), "tlc2.TLC",
               "-metadir", meta, "-workers", str(workers), "-config", cfgp]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        except subprocess.TimeoutExpired:
            raise Machinery("TLC timeout on " + module)
        out = p.stdout.decode(errors="replace")
        shutil.rmtree(meta, ignore_errors=True)
        res = {"rc": p.returncode, "out": out, "wall": time.time() - t}
        m = re.findall(r"([\d,]+) states generated(?: \(\S+ s/min\))?, ([\d,]+) distinct", out)
        res["gen"], res["dist"] = ([int(x.replace(",", "")) for x in m[-1]]
                                   if m else (0, 0))
        m = re.search(r"Generated (\d+) states", out)  # simulation
        self.notes.append("TLC %s: %.1fs %d states" % (module, res["wall"], res["dist"]))
        return res

    def model(self, module, cfg, env=None, **kw):
        """Design-level model checking: the specification itself satisfies the
        invariants in cfg.  A failure is a failure of the machinery (the
        specification is wrong), not of the code."""
        r = self.tlc(module, cfg, env, **kw)
        if r["rc"] != 0:
            raise Machinery("model %s: TLC rc %d\n%s" % (module, r["rc"], r["out"][-3000:]))
        self.states += r["dist"]
        self.transitions += r["gen"]
        self.models.append({"module": module, "states": r["dist"],
                            "transitions": r["gen"]})
        return r

    def generate(self, module, cfg, out, env=None, **kw):
        """TLC enumerates behaviours and prints each as GEN <json>."""
        r = self.model(module, cfg, env, **kw)
        n = 0
        with open(self.path(out), "w") as f:
            for s in sorted(tla_strings(r["out"], "GEN")):
                f.write(s + "\n")
                n += 1
        if not n:
            raise Machinery("model %s generated no behaviour" % module)
        return self.path(out), n

    def judge(self, module, trace, cfg=None, env=None, expect=(), timeout=int(os.environ.get("VCHK_TLC_TIMEOUT", "800")), **kw):
        """Check a recorded trace against the specification.  The module prints
        <<"FAIL", line, event, {clauses}>> for every event that is not allowed;
        every event must have been consumed."""
        if trace is None:
            return
        lines = [json.loads(l) for l in open(trace)]
        if not lines:
            raise Machinery("empty trace for " + module)
        e = {"TRACE": trace}
        e.update(env or {})
        r = self.tlc(module, cfg, e, timeout=timeout, **kw)
        for _ in range(4):
            # a canary made from an odd observation may be beyond evaluation
            m = re.findall(r"sc = (\d+)", r["out"])
            if r["rc"] == 0 or not m or not lines[int(m[-1]) - 1].get("canary"):
                break
            del lines[int(m[-1]) - 1]
            self.dropped = getattr(self, "dropped", 0) + 1
            with open(trace, "w") as f:
                f.writelines(json.dumps(l) + "\n" for l in lines)
            r = self.tlc(module, cfg, e, timeout=timeout, **kw)
        need = sum(1 + len(l.get("ev", [0])) for l in lines)
        failed = {}
        for m in re.finditer(r'<<\s*"FAIL",\s*(\d+),\s*(\d+),\s*\{(.*?)\}\s*>>', r["out"], re.S):
            cl = re.findall(r'"([^"]*)"', m.group(3))
            failed.setdefault((int(m.group(1)), int(m.group(2))), []).extend(cl)
        stopped = False
        if r["rc"] != 0 or r["dist"] != need:
            # evaluation error inside the specification: the event lies outside
            # its domain; find the event from the error trace
            m = re.findall(r"sc = (\d+)", r["out"])
            k = re.findall(r"/\\ k = (\d+)", r["out"])
            bad = not re.search("OutOfMemory|No space left", r["out"])
            i = r["out"].find("Error:")
            self.notes.append("TLC stopped early: " + r["out"][max(i, 0):][:1500])
            if r["rc"] != 0 and m and bad:
                ln = int(m[-1])
                if lines[ln - 1].get("canary"):
                    raise Machinery("judge %s: evaluation error on a canary\n%s" % (module, r["out"][max(i, 0):][:3000]))
                failed.setdefault((ln, int(k[-1]) + 1 if k else 1), []).append("outside_spec_domain")
            elif not any(not lines[ln - 1].get("canary") for ln, _ in failed):
                raise Machinery("judge %s: rc %d, %d states, need %d\n%s" % (
                    module, r["rc"], r["dist"], need, r["out"][max(i, 0):][:3000]))
            stopped = True
        self.states += r["dist"]
        self.transitions += r["gen"]
        for n, l in enumerate(lines, 1):
            f = [(k, c) for (ln, k), c in failed.items() if ln == n]
            if l.get("canary"):
                self.canaries += 1
                if not f and not stopped:
                    self.canary_missed += 1
                    self.notes.append("canary missed: " + json.dumps(l)[:600])
                continue
            self.traces += 1
            for ev in l.get("ev", [l]):
                self.events += 1
                kd = str(ev.get("kind", "?"))
                self.kinds[kd] = self.kinds.get(kd, 0) + 1
            for k, c in f:
                self.fails.append((l, k, sorted(set(c))))
        for l in lines:
            if not l.get("canary") and len(self.samples) < 4 and len(json.dumps(l)) < 6000 \
               and not any(s.get("kind") == l.get("kind") for s in self.samples):
                self.samples.append(l)
        missing = [k for k in expect if not self.kinds.get(k)]
        if missing and not self.fails:
            raise Machinery("no event of kind %s" % missing)
        return r


def tla_strings(out, tag):
    """Strings printed by PrintT(<<tag, ToJson(x)>>)."""
    for m in re.finditer(r'<<"%s", "((?:[^"\\]|\\.)*)">>' % tag, out):
        yield m.group(1).replace('\\"', '"').replace("\\\\", "\\")


def known_findings(prop):
    """Entries of the committed file: `finding: property=ID key=KEY clause=CLAUSE text`."""
    res = []
    p = os.path.join(VERIF, "KNOWN-FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) clause=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3), m.group(4)))
    return res


def run_check(prop, func, level, assumptions, tier, seed):
    ctx = Ctx(prop, tier, seed)
    try:
        func(ctx)
        known = known_findings(prop)
        seen, viol = set(), []
        for line, k, clauses in ctx.fails:
            rest = []
            for c in clauses:
                hit = [n for n, (ky, cl, _) in enumerate(known)
                       if ky == line.get("key") and cl == c]
                if hit:
                    seen.add(hit[0])
                else:
                    rest.append(c)
            if rest:
                viol.append((line, k, rest))
        for n in sorted(seen):
            print("KNOWN-FINDING: property=%s %s" % (prop, known[n][2]))
        if ctx.canary_missed and not viol:
            raise Machinery("%d canaries were accepted: %s" % (ctx.canary_missed, ctx.notes))
        rdir = os.path.join(VERIF, "replays", prop)
        shutil.rmtree(rdir, ignore_errors=True)
        for n, (line, k, clauses) in enumerate(viol[:5]):
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, "%d.json" % n)
            with open(rp, "w") as f:
                json.dump({"property": prop, "clauses": clauses, "event": k,
                           "scenario": line, "seed": seed, "tier": tier}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("  clauses: %s  key=%s kind=%s" % (", ".join(clauses)[:400],
                  line.get("key"), line.get("kind")))
        if len(viol) > 5:
            print("  ... and %d more failing events" % (len(viol) - 5))
        cov = {"states": ctx.states, "transitions": ctx.transitions,
               "traces_validated_against_impl": ctx.traces,
               "samples": [trim(s) for s in ctx.samples[:3]],
               "events_judged": ctx.events, "events_by_kind": ctx.kinds,
               "canaries_rejected": ctx.canaries - ctx.canary_missed,
               "models": ctx.models}
        if level == "exploration":
            cov["evaluations"] = ctx.events
            cov["distinct_nontrivial"] = len(ctx.kinds)
            cov["rule"] = "kinds of events"
        ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
              "coverage": cov, "assumptions": assumptions,
              "wall_s": round(time.time() - ctx.t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %s, %d traces, %d events %s, %d states, %.1fs" % (
            prop, "VIOLATED" if viol else "held", ctx.traces, ctx.events,
            ctx.kinds, ctx.states, time.time() - ctx.t0))
        if os.environ.get("VCHK_VERBOSE"):
            print("\n".join(ctx.notes))
        return 1 if viol else 0
    except Machinery as e:
        print("MACHINERY property=%s %s" % (prop, e), file=sys.stderr)
        return 2
    finally:
        ctx.close()


def trim(x, n=12):
    if isinstance(x, dict):
        return {k: trim(v, n) for k, v in x.items()}
    if isinstance(x, list):
        return [trim(v, n) for v in x[:n]] + (["... %d more" % (len(x) - n)] if len(x) > n else [])
    return x

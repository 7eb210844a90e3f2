"""Orchestration shared by every check: build drivers from /repo, run them, run TLC, report.

The verdict always comes from TLC: a check generates behaviours (from the specification or from a
seeded generator), executes them on the real code, and asks TLC whether the recorded behaviour is
one the specification allows."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")


class Enough(Exception):
    """A violation after which going on tells nothing more."""


class CheckError(Exception):
    """The check itself could not be carried out (exit 2)."""


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.work = os.path.join(ROOT, ".work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.models = []
        self.parts = []
        self.violations = []
        self.known = []
        self.assumptions = []
        self._n = 0
        self.live, self.over = set(), False     # drivers running; no more of them

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, salt=""):
        return random.Random("%d/%s/%s" % (self.seed, self.prop, salt))

    def tmp(self, suffix):
        self._n += 1
        return os.path.join(self.work, "%03d%s" % (self._n, suffix))

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def listed(self, key):
        """The description of a known finding of this property, or None."""
        for l in open(os.path.join(ROOT, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) ([^:]+): (.*)", l)
            if m and m.group(1) == self.prop and m.group(2) == key:
                return m.group(3).strip()

    # ---- reporting -------------------------------------------------------------------------
    def violation(self, what, detail):
        """A confirmed disagreement between the code and the specification."""
        if len(self.violations) >= 10:
            self.violations.append(what)
            return
        d = os.path.join(ROOT, ".work", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier,
                       "detail": detail}, f, indent=1, default=str)
        self.violations.append(what)
        print("  violation:", what)
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)

    def finish(self):
        self.over = True
        for p in list(self.live):
            p.kill()
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "events_validated": self.events,
                "design_models": self.models,
                "parts": self.parts,
                "samples": self.samples or ["(none)"],
                "known_findings_seen": self.known,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if not self.violations:
            shutil.rmtree(self.work, ignore_errors=True)
        self.log("states=%d transitions=%d traces=%d events=%d violations=%d" % (
            self.states, self.transitions, self.traces, self.events, len(self.violations)))
        return 1 if self.violations else 0

    # ---- building and running the real code --------------------------------------------------
    def build(self, name, srcs, flags=(), cxx="g++", std="-std=gnu++14", link=(), opt="-O1"):
        exe = os.path.join(self.work, name)
        inc = ["-I" + REPO, "-I" + HARN]
        cmd = [cxx, std, opt, "-g0", "-w"] + inc + list(flags) + [os.path.join(HARN, s) for s in srcs] + \
              ["-o", exe, "-pthread"] + list(link)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode != 0:
            raise CheckError("driver %s does not build against %s:\n%s" % (name, REPO, r.stdout[:3000]))
        return exe

    def build_all(self, jobs):
        """jobs: list of (name, srcs, kwargs); built in parallel."""
        with ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(self.build, n, s, **kw) for n, s, kw in jobs]
            return [f.result() for f in fs]

    def process(self, cmd, text, timeout, env):
        """Feed a driver its input; what it wrote, how it ended ("timeout" if it did not), its errors."""
        if self.over:
            raise Enough
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        self.live.add(p)
        try:
            out, err = p.communicate(text, timeout=timeout)
            if self.over:
                raise Enough
            return out, p.returncode, err
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            return out, "timeout", err
        finally:
            self.live.discard(p)

    def run_driver(self, exe, script, timeout=120, args=(), env=None):
        """script: list of traces, each a list of text lines. Returns (list of traces, fault or None)."""
        text = "\n".join("\n".join(["BEGIN %d" % i] + t + ["END"]) for i, t in enumerate(script)) + "\n"
        e = dict(os.environ)
        e.update(env or {})
        out, rc, err = self.process([exe] + list(args), text.encode("latin-1"), timeout, e)
        res = []
        for ln in out.decode("latin-1").split("\n"):
            if ln.startswith("["):
                try:
                    res.append(json.loads(ln))
                except ValueError:
                    break
        fault = None
        if rc != 0 or len(res) != len(script):
            fault = "driver ended with %s after %d of %d traces: %s" % (rc, len(res), len(script),
                                                                         err.decode("latin-1")[-600:])
        return res, fault

    # ---- TLC -----------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=8, extra=(), timeout=600, mem="6g"):
        meta = self.tmp(".meta")
        e = dict(os.environ)
        e.update(env or {})
        cfgp = cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-cp", JAR, "tlc2.TLC",
               "-metadir", meta, "-workers", str(workers), "-deadlock", "-noGenerateSpecTE",
               "-config", cfgp] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, env=e, cwd=self.work, errors="replace")
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as x:
            o = x.stdout or b""
            out, rc = (o.decode("utf-8", "replace") if isinstance(o, bytes) else o), "timeout"
        shutil.rmtree(meta, ignore_errors=True)
        gen = dist = 0
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"Progress[^:]*: ([\d,]+) states checked", out) or \
                re.findall(r"The number of states generated: ([\d,]+)", out)
            if m:
                gen = dist = int(m[-1].replace(",", ""))
        return {"out": out, "rc": rc, "generated": gen, "distinct": dist}

    def model(self, module, cfg, note, **kw):
        """Exhaustively model-check a design model; its failure is an error of the model."""
        r = self.tlc(module, cfg, **kw)
        if r["rc"] != 0:
            raise CheckError("model %s/%s: TLC rc=%s\n%s" % (module, cfg, r["rc"], _tail(r["out"])))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append({"model": module, "cfg": cfg, "distinct": r["distinct"],
                            "generated": r["generated"], "what": note})
        self.log("model %s %s: %d distinct, %d generated" % (module, cfg, r["distinct"], r["generated"]))
        return r

    def behaviours(self, module, cfg, env=None, simulate=None, depth=None, **kw):
        """Have TLC generate behaviours: lines printed as GEN <json> by the Gen modules."""
        extra = []
        workers = kw.pop("workers", 8)
        if simulate:
            extra = ["-simulate", "num=%d" % simulate, "-seed", str(self.seed * 7919 + 17)]
            if depth:
                extra += ["-depth", str(depth)]
            workers = 1
        r = self.tlc(module, cfg, env=env, extra=extra, workers=workers, **kw)
        if r["rc"] != 0:
            raise CheckError("generator %s/%s: TLC rc=%s\n%s" % (module, cfg, r["rc"], _tail(r["out"])))
        res = []
        for ln in r["out"].split("\n"):
            if ln.startswith('"GEN '):
                res.append(json.loads(json.loads(ln)[4:]))
        if not res:
            raise CheckError("generator %s/%s produced nothing\n%s" % (module, cfg, r["out"][-2000:]))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append({"model": module, "cfg": cfg, "distinct": r["distinct"], "generated": r["generated"],
                            "what": "behaviour generator, %d behaviours" % len(res)})
        self.log("generated %d behaviours from %s/%s" % (len(res), module, cfg))
        return res

    def validate(self, module, cfg, traces, env=None, timeout=600, **kw):
        """Check recorded traces against the specification. Returns indices of rejected traces."""
        if not traces:
            return []
        total = sum(len(t) for t in traces)
        if len(traces) > 1 and total > 500000:
            rej, start, acc = [], 0, 0
            for i, t in enumerate(traces):
                acc += len(t)
                if acc > 450000 or i == len(traces) - 1:
                    rej += [start + k for k in self.validate(module, cfg, traces[start:i + 1], env, timeout, **kw)]
                    start, acc = i + 1, 0
            return rej
        p = self.tmp(".ndjson")
        with open(p, "w") as f:
            for t in traces:
                f.write(json.dumps(t, separators=(",", ":")) + "\n")
        e = {"TRACES": p}
        e.update(env or {})
        r = self.tlc(module, cfg, env=e, timeout=timeout, **kw)
        if r["rc"] != 0:
            raise CheckError("trace validation %s: TLC rc=%s\n%s" % (module, r["rc"], _tail(r["out"])))
        acc = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', r["out"]))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        rej = [i for i in range(len(traces)) if (i + 1) not in acc]
        self.traces += len(traces) - len(rej)
        self.events += sum(len(t) for t in traces)
        os.unlink(p)
        return rej

    def explain(self, module, cfg, trace, env=None, **kw):
        """Longest prefix of one rejected trace the specification accepts."""
        p = self.tmp(".ndjson")
        with open(p, "w") as f:
            f.write(json.dumps(trace) + "\n")
        e = {"TRACES": p, "EXPLAIN": "1"}
        e.update(env or {})
        r = self.tlc(module, cfg, env=e, workers=1, **kw)
        at = [int(x) for x in re.findall(r'<<"AT", (\d+)', r["out"])]
        n = max(at) if at else 0
        return {"accepted_prefix": n - 1, "rejected_event": trace[n - 1] if 0 < n <= len(trace) else None}

    def conform(self, part, exe, script, tmodule, tcfg, sample=True, timeout=120, post=None, tl_timeout=600, env=None,
                denv=None, processes=24):
        """Run scripts on the code and validate the traces; confirm a rejection by repeating it."""
        # several processes, so that what a process does first varies
        n = max(1, min(processes, len(script) // 3))
        shards = [list(range(k, len(script), n)) for k in range(n)]
        # all at once: should the code hang, they run into their time limits together
        with ThreadPoolExecutor(n) as pool:
            rs = list(pool.map(lambda s: self.run_driver(exe, [script[i] for i in s], timeout=timeout, env=denv), shards))
        res, orig, home = [], [], {}
        for s, (got, fault) in zip(shards, rs):
            if fault:
                k = len(got)
                got2, fault2 = self.run_driver(exe, [script[s[k]]], timeout=min(timeout, 60) if len(s) > 1 else timeout,
                                               env=denv) if k < len(s) else ([], fault)
                if not fault2:
                    got3, fault2 = self.run_driver(exe, [script[i] for i in s], timeout=timeout, env=denv)
                    if not fault2:
                        got = got3
                if fault2 and len(self.violations) < 10:
                    self.violation("%s: the code crashed or hung: %s" % (part, fault2[:300]),
                                   {"script": script[s[k]] if k < len(s) else None, "fault": fault2,
                                    "in_process_after": [script[i] for i in s[:k]][-3:]})
                    raise Enough        # code that crashes or hangs would only do so again
            for i, t in zip(s, got):
                home[len(orig)] = s
                res.append(t)
                orig.append(i)
        if post:
            res = [post(t) for t in res]
        rej = self.validate(tmodule, tcfg, res, timeout=tl_timeout, env=env)
        self.parts.append({"part": part, "traces": len(res), "events": sum(len(t) for t in res),
                           "longest": max([len(t) for t in res] or [0])})
        if sample and res:
            self.sample({"part": part, "script": script[orig[len(res) // 2]][:12], "trace": res[len(res) // 2][:12]})
        self.log("%s: %d traces, %d events, %d rejected" % (part, len(res), sum(len(t) for t in res), len(rej)))
        for n, i in [(n, orig[n]) for n in rej[:5]]:
            r2, f2 = self.run_driver(exe, [script[i]], timeout=timeout, env=denv)
            if f2:
                self.violation("%s: the code crashed or hung: %s" % (part, f2[:300]), {"script": script[i], "fault": f2})
                continue
            if post:
                r2 = [post(t) for t in r2]
            if self.validate(tmodule, tcfg, r2, env=env):
                ex = self.explain(tmodule, tcfg, r2[0], env=env)
                self.violation("%s: after %d accepted events the specification rejects %s" % (
                    part, ex["accepted_prefix"], json.dumps(ex["rejected_event"])[:300]),
                    {"script": script[i], "trace": r2[0], "explain": ex})
            else:
                # the repetition in isolation behaved: repeat what its process did before
                before = [j for j in home[n] if j <= i]
                r3, f3 = self.run_driver(exe, [script[j] for j in before], timeout=timeout, env=denv)
                if post:
                    r3 = [post(t) for t in r3]
                if f3 or self.validate(tmodule, tcfg, [r3[-1]], env=env):
                    ex = self.explain(tmodule, tcfg, res[n], env=env)
                    self.violation("%s: in a process that did other things before, after %d accepted events the specification rejects %s" % (
                        part, ex["accepted_prefix"], json.dumps(ex["rejected_event"])[:300]),
                        {"script": script[i], "trace": res[n], "explain": ex, "in_process_after": [script[j] for j in before[:-1]][-40:]})
        return res, rej


    # ---- schedules of real threads -----------------------------------------------------------
    def build_conc(self, name, src, flags=(), std="-std=gnu++14", opt="-O1"):
        """A driver whose code under test runs under the deterministic scheduler of harness/conc."""
        inc = ["-I" + REPO, "-I" + HARN]
        jobs = [["g++", std, opt, "-g0", "-w", "-fsanitize=thread"] + inc + list(flags) +
                ["-c", os.path.join(HARN, "conc", src), "-o", os.path.join(self.work, name + ".o")]]
        if not os.path.exists(os.path.join(self.work, "rt.o")):
            jobs.append(["g++", "-std=gnu++17", "-O2", "-g0", "-w", "-c", os.path.join(HARN, "conc", "rt.cpp"),
                         "-o", os.path.join(self.work, "rt.o")])
            jobs.append(["g++", "-std=gnu++17", "-O1", "-g0", "-w", "-I" + HARN, "-c", os.path.join(HARN, "clock.cpp"),
                         "-o", os.path.join(self.work, "clock.o")])
        with ThreadPoolExecutor(4) as ex:
            rs = list(ex.map(lambda c: subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), jobs))
        exe = os.path.join(self.work, name)
        rs.append(subprocess.run(["g++"] + [os.path.join(self.work, x) for x in (name + ".o", "rt.o", "clock.o")] +
                                 ["-o", exe, "-pthread", "-latomic"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for r in rs:
            if r.returncode != 0:
                raise CheckError("driver %s does not build against %s:\n%s" % (name, REPO, r.stdout[:3000]))
        return exe

    def _conc_run(self, exe, progs, timeout):
        text = "\n".join("\n".join(["BEGIN"] + p + ["END"]) for p in progs) + "\n"
        out, rc, err = self.process([exe], text.encode(), timeout, None)
        hist, done, execs, fault = [], 0, 0, None
        for ln in out.decode("latin-1").split("\n"):
            if ln.startswith("#done"):
                done += 1
                execs += int(ln.split()[2])
            elif ln.startswith("["):
                try:
                    h = json.loads(ln)
                except ValueError:
                    continue
                if "fault" in h[0]:
                    fault = h[0]
                else:
                    hist.append(h)
        if fault is None and (rc != 0 or done != len(progs)):
            fault = {"fault": "driver ended with %s: %s" % (rc, err.decode("latin-1")[-400:]), "prog": None}
        return hist, execs, fault

    def explore(self, part, exe, progs, module, cfg, post=None, cfgline="", runs=1000, most=200, timeout=240, tl_timeout=600):
        """Run every program (list of lines: cfg words, S/T/F lines) under many schedules of its threads and
        have TLC judge every distinct history."""
        full = []
        for i, p in enumerate(progs):
            head = "cfg prog=%d runs=%d max=%d seed=%d %s" % (i, runs, most, self.seed * 101 + i, p[0])
            full.append([head] + p[1:])
        shards = [full[k::8] for k in range(8) if full[k::8]]
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda s: self._conc_run(exe, s, timeout), shards))
        hists, execs = [], 0
        seen = set()
        for k, (h, n, fault) in enumerate(rs):
            hists += h
            execs += n
            if fault:
                prog = fault.get("prog")
                again = [full[prog]] if prog is not None else shards[k]
                h2, n2, f2 = self._conc_run(exe, again, timeout)
                if f2 and len(self.violations) < 5:
                    self.violation("%s: %s" % (part, f2["fault"][:300]),
                                   {"program": again[0] if prog is not None else again, "fault": f2})
                    raise Enough
                elif prog is not None:
                    hists += h2
        recs = [post(json.loads(json.dumps(h))) if post else h for h in hists]
        rej = self.validate(module, cfg, recs, timeout=tl_timeout)
        self.parts.append({"part": part, "programs": len(progs), "schedules_run": execs, "histories": len(hists),
                           "events": sum(len(h) for h in hists)})
        if hists:
            self.sample({"part": part, "program": progs[len(progs) // 2], "history": hists[len(hists) // 2][:12]})
        self.log("%s: %d programs, %d schedules, %d distinct histories, %d rejected" % (part, len(progs), execs, len(hists), len(rej)))
        for i in rej[:3]:
            h = hists[i]
            h2, _, f2 = self._conc_run(exe, [full[h[0]["prog"]]], timeout)
            if h in h2:
                ex = self.explain(module, cfg, recs[i])
                self.violation("%s: no order of the calls of a recorded history is allowed by the specification (run %s of program %s)" % (
                    part, h[0]["run"], h[0]["prog"]), {"program": full[h[0]["prog"]], "history": h, "explain": ex})
            else:
                raise CheckError("%s: a rejected history did not come back when repeated" % part)
        return hists


def _tail(out):
    out = "\n".join(l for l in out.split("\n") if not l.startswith(("Parsing file", "Semantic processing", "TLC2 Ver")))
    for k in ("Semantic errors", "***Parse Error", "Fatal error"):
        if k in out:
            return out[out.find(k):][:2500]
    i = out.find("Error:")
    return out[i:i + 3500] if i >= 0 else out[-3000:]


def run(prop, fn):
    ctx = Ctx(prop)
    try:
        fn(ctx)
        return ctx.finish()
    except Enough:
        return ctx.finish()
    except Exception as x:
        if not isinstance(x, CheckError):
            import traceback
            traceback.print_exc()
        if ctx.violations:
            print("check error after a violation:", x)
            return ctx.finish()
        print("CHECK-ERROR property=%s %s" % (prop, x), flush=True)
        shutil.rmtree(ctx.work, ignore_errors=True)
        return 2

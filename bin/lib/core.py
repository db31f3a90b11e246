"""Running the driver and TLC, and reporting."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Infra(Exception):
    pass


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.start = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=os.environ.get("VERIF_TMP", "/tmp"))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.violations = []      # dicts: case, outcome, why
        self.assumptions = []
        self.drivers = {}

    def rng(self, label):
        return random.Random("%s/%s/%d" % (self.prop, label, self.seed))

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ---- driver ----
    def driver(self, files=("core_verif_test.go",), race=False):
        key = (tuple(files), race)
        if key not in self.drivers:
            out = tempfile.mkdtemp(prefix="drv", dir=self.scratch)
            cmd = [os.path.join(VERIF, "bin", "build_driver.sh"), out] + (["-race"] if race else []) + list(files)
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            if p.returncode != 0:
                raise Infra("driver does not build:\n" + p.stdout[-4000:])
            self.drivers[key] = os.path.join(out, "driver")
        return self.drivers[key]

    def _exec(self, drv, cases, hang=20, flush=False, timeout=600, env=None):
        d = tempfile.mkdtemp(dir=self.scratch)
        inp, outp = os.path.join(d, "in"), os.path.join(d, "out")
        with open(inp, "w") as fh:
            for c in cases:
                fh.write(json.dumps(c, separators=(",", ":")) + "\n")
        e = dict(os.environ, VERIF_IN=inp, VERIF_OUT=outp, VERIF_HANG_S=str(hang))
        if flush:
            e["VERIF_FLUSH"] = "1"
        e.update(env or {})
        try:
            p = subprocess.run([drv, "-test.run", "TestZZVerifDriver", "-test.timeout", "0"], cwd=d, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
            rc, log = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, log = -1, "timeout"
        outs = []
        if os.path.exists(outp):
            with open(outp) as fh:
                for line in fh:
                    try:
                        outs.append(json.loads(line))
                    except ValueError:
                        break
        shutil.rmtree(d, ignore_errors=True)
        return rc, outs, log

    def run(self, cases, files=("core_verif_test.go",), race=False, procs=8, hang=20, timeout=600, env=None):
        """Runs the cases (they get ids) and returns their outcomes in order.  A case on which the process dies is run again on
        its own; if it dies again, its outcome is a crash."""
        drv = self.driver(files, race)
        for i, c in enumerate(cases):
            c["id"] = i
        if not cases:
            return []
        n = max(1, min(procs, (len(cases) + 49) // 50))
        parts = [cases[i::n] for i in range(n)]
        from concurrent.futures import ThreadPoolExecutor
        res = {}

        def part(cs):
            out = {}
            todo = cs
            crashes = 0
            flush = race
            while todo:
                rc, outs, log = self._exec(drv, todo, hang, flush, timeout, env)
                for o in outs:
                    out[o["id"]] = o
                rest = [c for c in todo if c["id"] not in out]
                if not rest:
                    break
                if rc == 0:
                    # given up after several hangs
                    for c in rest:
                        out[c["id"]] = {"id": c["id"], "skipped": True}
                    break
                if not flush:
                    flush = True
                    if outs or len(rest) > 1:
                        todo = rest
                        rc1, outs1, log1 = self._exec(drv, todo, hang, True, timeout, env)
                        for o in outs1:
                            out[o["id"]] = o
                        rest = [c for c in todo if c["id"] not in out]
                        log = log1
                        if not rest:
                            break
                # the first of the rest is the one that crashed: confirm
                first = rest[0]
                if race and "WARNING: DATA RACE" in log:
                    out[first["id"]] = {"id": first["id"], "c": "X", "v": "X", "p": "X", "crash": True, "msg": race_report(log)}
                    crashes += 1
                    todo = rest[1:]
                    if crashes > 2:
                        for c in todo:
                            out[c["id"]] = {"id": c["id"], "skipped": True}
                        break
                    continue
                rc2, outs2, log2 = self._exec(drv, [first], hang, True, timeout, env)
                if outs2:
                    out[first["id"]] = outs2[0]
                    if rc2 == 0 and rc != 0 and "skipped" not in out[first["id"]]:
                        crashes += 1
                        if crashes > 3:
                            raise Infra("driver died without a reproducible case:\n" + log[-3000:])
                elif rc2 == -1:
                    raise Infra("driver timed out:\n" + log2[-3000:])
                else:
                    if re.search(r"fatal error: (out of memory|runtime: cannot allocate)", log2) or rc2 == -9:
                        raise Infra("driver out of memory:\n" + log2[-3000:])
                    m = re.search(r"(WARNING: DATA RACE|panic: .*|fatal error: .*|goroutine stack exceeds.*)", log2)
                    out[first["id"]] = {"id": first["id"], "c": "X", "v": "X", "p": "X", "crash": True,
                                        "msg": m.group(1) if m else "the process died: rc %d" % rc2}
                    crashes += 1
                todo = rest[1:]
                if crashes > 5:
                    for c in todo:
                        out[c["id"]] = {"id": c["id"], "skipped": True}
                    break
            return out

        with ThreadPoolExecutor(n) as ex:
            for out in ex.map(part, parts):
                res.update(out)
        outs = [res[i] for i in range(len(cases))]
        for o in outs:
            if o.get("driver"):
                raise Infra("driver: %s" % o["driver"])
        return outs

    # ---- TLC ----
    def tlc(self, module, cfg, env=None, workers=8, timeout=800, extra=(), files=(), xmx="8g", deadlock=False,
            gc=("-XX:+UseParallelGC",)):
        """Runs TLC in a scratch copy of the specification; returns its output.  cfg: text of the configuration"""
        d = tempfile.mkdtemp(dir=self.scratch)
        for fn in os.listdir(SPEC):
            if fn.endswith(".tla"):
                os.symlink(os.path.join(SPEC, fn), os.path.join(d, fn))
        for name, text in files:
            p = os.path.join(d, name)
            if os.path.islink(p):
                os.unlink(p)
            with open(p, "w") as fh:
                fh.write(text)
        with open(os.path.join(d, "M.cfg"), "w") as fh:
            fh.write(cfg)
        cmd = ["java", *gc, "-Xmx" + xmx, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", "-workers", str(workers), "-config", "M.cfg"]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(extra) + [module]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Infra("TLC timed out on %s" % module)
        finally:
            self.last_dir = d
        out = p.stdout
        m = None
        for m in re.finditer(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out):
            pass
        gen = int(m.group(1).replace(",", "")) if m else 0
        dist = int(m.group(2).replace(",", "")) if m else 0
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return p.returncode, out, gen, dist

    def model_check(self, module, cfg, name=None, min_states=1, **kw):
        """A model of the specification: any error is one of the machinery (it says nothing about the code)"""
        rc, out, gen, dist = self.tlc(module, cfg, **kw)
        if rc != 0:
            raise Infra("TLC on %s: rc %d\n%s" % (module, rc, tail(out)))
        if dist < min_states:
            raise Infra("TLC on %s: only %d states" % (module, dist))
        self.states += dist
        self.transitions += gen
        self.notes.setdefault("models", []).append({"module": name or module, "distinct": dist, "generated": gen})
        return out

    def validate(self, module, events, name=None, jvms=8, timeout=800, minslice=100, **kw):
        """Trace validation: every event has to be allowed by the specification.  The log is cut into slices which are checked by
        TLC processes side by side.  Returns {event index: details}"""
        if not events:
            return {}
        from concurrent.futures import ThreadPoolExecutor
        d = tempfile.mkdtemp(dir=self.scratch)
        t0 = time.time()
        n = max(1, min(jvms, (len(events) + minslice - 1) // minslice))
        slices = [list(range(k, len(events), n)) for k in range(n)]

        def one(k):
            log = os.path.join(d, "log%d.ndjson" % k)
            with open(log, "w") as fh:
                for i in slices[k]:
                    ev = dict(events[i])
                    ev["id"] = i
                    fh.write(json.dumps(ev, separators=(",", ":")) + "\n")
            r = self.tlc(module, "SPECIFICATION Spec\n", env={"VERIF_LOG": log}, workers=1, timeout=timeout,
                         gc=("-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"), xmx="3g", **kw)
            os.unlink(log)
            return r

        with ThreadPoolExecutor(n) as ex:
            results = list(ex.map(one, range(n)))
        rej = {}
        stats = {}
        for k, (rc, out, gen, dist) in enumerate(results):
            if rc != 0:
                raise Infra("trace validation with %s: rc %d\n%s" % (module, rc, tail(out)))
            if dist != len(slices[k]) + 1:
                raise Infra("trace validation with %s: %d states for %d events\n%s" % (module, dist, len(slices[k]), tail(out)))
            self.states += dist
            self.transitions += gen
            flat = re.sub(r"\s+", " ", out)
            for m in re.finditer(r'<<\s*"REJECT", (\d+), (.*?)>>(?= |$)', flat):
                rej[int(m.group(1))] = m.group(2)
            for m in re.finditer(r'<<\s*"STAT", "([^"]+)", (\d+)\s*>>', flat):
                stats[m.group(1)] = stats.get(m.group(1), 0) + int(m.group(2))
        if os.environ.get("VERIF_DEBUG"):
            sys.stderr.write("validate %s: %d events %.1f s %s\n" % (name, len(events), time.time() - t0, stats))
        nm = name or module
        cov = self.notes.setdefault("validated", {}).setdefault(nm, {"events": 0})
        cov["events"] += len(events)
        for k, v in stats.items():
            cov[k] = cov.get(k, 0) + v
        self.events += len(events)
        shutil.rmtree(d, ignore_errors=True)
        return rej

    # ---- results ----
    def violation(self, case, outcome, why):
        self.violations.append({"case": case, "outcome": outcome, "why": why})

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)


def race_report(log):
    k = log.index("WARNING: DATA RACE")
    return " ".join(x.strip() for x in log[k:k + 1200].splitlines() if x.strip())[:700]


def tail(s, n=5000):
    if len(s) < n:
        return s
    k = s.find("\nError:")
    return s[:1500] + "\n...\n" + (s[k:k + 1500] + "\n...\n" if k >= 0 else "") + s[-n:]


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get("property") == prop and k.get("kind") == "known":
                    out.append(k)
    return out


def finish(ctx):
    """Writes evidence and replays, prints the verdict, returns the exit code"""
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replays"), exist_ok=True)
    for fn in os.listdir(os.path.join(ev, "replays")):
        if fn.startswith(ctx.prop + "-"):
            os.unlink(os.path.join(ev, "replays", fn))
    lines = []
    for i, v in enumerate(ctx.violations[:20]):
        path = os.path.join(ev, "replays", "%s-%d.json" % (ctx.prop, i + 1))
        with open(path, "w") as fh:
            json.dump({"property": ctx.prop, "seed": ctx.seed, "tier": ctx.tier, **v,
                       "rerun": "python3 /verif/bin/check.py %s --replay %s" % (ctx.prop, path)}, fh, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (ctx.prop, path))
        lines.append("  " + v["why"][:1000])
    doc = {"property": ctx.prop, "tier": ctx.tier if ctx.tier in ("quick", "thorough") else "quick", "seed": ctx.seed,
           "level": "model_checking",
           "coverage": {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
                        "events_validated": ctx.events, "samples": ctx.samples or [{"none": True}], **ctx.notes},
           "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.start, 1), "violations": len(ctx.violations)}
    with open(os.path.join(ev, ctx.prop + ".json"), "w") as fh:
        json.dump(doc, fh, indent=1)
    for k in known_findings(ctx.prop):
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k["what"]))
    for ln in lines:
        print(ln)
    print("%s: %d states, %d transitions, %d traces (%d events) validated, %d violations, %.1f s" % (
        ctx.prop, ctx.states, ctx.transitions, ctx.traces, ctx.events, len(ctx.violations), time.time() - ctx.start))
    return 1 if ctx.violations else 0

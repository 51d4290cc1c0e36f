"""Shared machinery: build drivers against /repo, run TLC (design check, behaviour generation, trace acceptance),
collect evidence and report violations. Only the Python standard library is used."""
import concurrent.futures, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LIMBO_REPO", "/repo")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BASE_FLAGS = ["-std=c++14", "-w", "-I" + REPO + "/src", "-I/usr/include/eigen3", "-I" + VERIF + "/harness"]
LIBS = ["-lnlopt", "-lboost_filesystem", "-lboost_system", "-lpthread"]
TBB = ["-DUSE_TBB", "-DUSE_TBB_ONEAPI"]


class CheckError(Exception):
    """The check itself could not run (exit 2)."""


class Ctx:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.quick = self.tier != "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="mbv_%s_" % pid)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "design_checks": [], "trace_checks": [], "behaviours_generated": 0, "events_validated": 0,
                    "drivers": []}
        self.assumptions = []
        self.violations = []
        self.findings = []
        self.known = load_known(pid)
        self.rng = random.Random(self.seed)
        self.pool = concurrent.futures.ThreadPoolExecutor(8)

    # ---------------------------------------------------------------- building
    def _compile(self, name, srcs, flags, opt):
        out = os.path.join(self.work, name)
        objs = []
        cmd = ["g++"] + BASE_FLAGS + [opt, "-o", out]
        for s in srcs:
            cmd.append(s if s.startswith("/") else os.path.join(VERIF, "harness", s))
        cmd += [f for f in flags if not f.startswith("-l")] + [f for f in flags if f.startswith("-l")] + LIBS
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("driver %s does not compile:\n%s" % (name, r.stdout[-4000:]))
        return out

    def compile_c(self, src):
        """A C source of the repository -> object file."""
        obj = os.path.join(self.work, os.path.basename(src) + ".o")
        r = subprocess.run(["gcc", "-w", "-O1", "-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("%s does not compile:\n%s" % (src, r.stdout[-2000:]))
        return obj

    def build(self, specs):
        """specs: {name: (sources, flags)} -> {name: future of binary path}"""
        fut = {}
        for n, s in specs.items():
            srcs, flags = s[0], s[1]
            opt = s[2] if len(s) > 2 else "-O1"
            fut[n] = self.pool.submit(self._compile, n, srcs, list(flags), opt)
        self.cov["drivers"] += sorted(specs)
        return fut

    # ---------------------------------------------------------------- TLC
    def _java(self, args, cwd, timeout, env=None, heap="3g"):
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update(env)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m",
               "-Djava.io.tmpdir=" + cwd, "-cp", CP, "tlc2.TLC"] + args
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        return r.returncode, r.stdout

    def _tlcdir(self, module, cfg):
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.work)
        for f in glob.glob(os.path.join(VERIF, "spec", "*.tla")):
            shutil.copy(f, d)
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        return d

    def design(self, module, cfg, name=None, timeout=600, workers=4, min_states=2, heap="3g"):
        """Exhaustive check of a specification configuration. Must succeed; a failure is an error of the model."""
        d = self._tlcdir(module, cfg)
        rc, out = self._java(["-workers", str(workers), "-metadir", d + "/meta", "-noGenerateSpecTE", "-config", "run.cfg",
                              module + ".tla"], d, timeout, heap=heap)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        if rc != 0 or not m or "No error has been found" not in out:
            raise CheckError("design check %s failed (model error):\n%s" % (module, out[-3500:]))
        g, s = int(m.group(1)), int(m.group(2))
        if s < min_states:
            raise CheckError("design check %s is vacuous: %d states" % (module, s))
        self.cov["states"] += s
        self.cov["transitions"] += g
        self.cov["design_checks"].append({"module": name or module, "states": s, "transitions": g, "exhaustive": True})
        shutil.rmtree(d, ignore_errors=True)

    def simulate(self, module, cfg, num, depth, salt=0, timeout=300, limit=None):
        """Random behaviours of a generator module (prints lines starting with @@)."""
        d = self._tlcdir(module, cfg)
        rc, out = self._java(["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed * 1000 + salt),
                              "-workers", "1", "-metadir", d + "/meta", "-noGenerateSpecTE", "-config", "run.cfg", module + ".tla"],
                             d, timeout)
        return self._behaviours(module, rc, out, d, limit)

    def enumerate(self, module, cfg, timeout=300, limit=None):
        """All terminal behaviours of a (small) generator module, by exhaustive search."""
        d = self._tlcdir(module, cfg)
        rc, out = self._java(["-workers", "1", "-metadir", d + "/meta", "-noGenerateSpecTE", "-config", "run.cfg", module + ".tla"],
                             d, timeout)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.cov["states"] += int(m.group(2))
            self.cov["transitions"] += int(m.group(1))
        return self._behaviours(module, rc, out, d, limit)

    def _behaviours(self, module, rc, out, d, limit):
        res, seen = [], set()
        for l in out.splitlines():
            if l.startswith('"@@'):
                s = json.loads(l)[2:]
                if s not in seen:
                    seen.add(s)
                    res.append(json.loads(s))
        if rc != 0 or not res:
            raise CheckError("generator %s failed:\n%s" % (module, out[-3500:]))
        shutil.rmtree(d, ignore_errors=True)
        if limit and len(res) > limit:
            self.rng.shuffle(res)
            res = res[:limit]
        self.cov["behaviours_generated"] += len(res)
        return res

    def _accept(self, module, cfg, path, timeout):
        d = self._tlcdir(module, cfg)
        rc, out = self._java(["-workers", "1", "-metadir", d + "/meta", "-noGenerateSpecTE", "-config", "run.cfg", module + ".tla"],
                             d, timeout, env={"TRACE": path})
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        r = None
        mm = re.search(r'"REJECTED", (\d+)', out)
        inv = re.search(r"Invariant (\w+) is violated", out) or re.search(r"Action property (\w+) is violated", out)
        if mm:
            r = ("no action of the specification explains this event", int(mm.group(1)))
        elif inv:
            ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
            r = ("invariant %s is violated" % inv.group(1), max(1, int(ls[-1]) - 1) if ls else 1)
        elif rc == 0 and "No error has been found" in out:
            r = None
        else:
            raise CheckError("trace check %s failed to run:\n%s" % (module, out[-3500:]))
        shutil.rmtree(d, ignore_errors=True)
        return r, gen, dist

    # ---------------------------------------------------------------- driver + acceptance
    def run_driver(self, binary, args, script, timeout=300, env=None, cwd=None, stall=60):
        """Runs a driver on a script (text on stdin). Returns the list of events (dicts); a crash or a hang is an event."""
        wd = cwd or tempfile.mkdtemp(prefix="run_", dir=self.work)
        tr = tempfile.mktemp(prefix="trace_", suffix=".ndjson", dir=self.work)
        e = dict(os.environ)
        if env:
            e.update(env)
        e["MBV_TRACE"] = tr
        end, tail = None, ""
        with open(os.path.join(wd, "stderr.txt"), "wb") as err:
            with open(os.path.join(wd, "stdin.txt"), "wb") as f:
                f.write(script.encode())
            p = subprocess.Popen([binary] + [str(a) for a in args], stdin=open(os.path.join(wd, "stdin.txt"), "rb"),
                                 stdout=subprocess.DEVNULL, stderr=err, cwd=wd, env=e)
            # a driver that records nothing for a long time hangs
            t0 = last = time.time()
            size = -1
            while True:
                try:
                    rc = p.wait(0.2 if time.time() - t0 > 1 else 0.02)
                    break
                except subprocess.TimeoutExpired:
                    pass
                n = os.path.getsize(tr) if os.path.exists(tr) else 0
                now = time.time()
                if n != size:
                    size, last = n, now
                if now - last > stall or now - t0 > timeout:
                    p.kill()
                    p.wait()
                    rc, end = None, {"e": "hang", "status": 0}
                    break
            if rc == 77:
                raise CheckError("driver error: " + open(os.path.join(wd, "stderr.txt"), errors="replace").read()[-2000:])
            if rc:
                end = {"e": "crash", "status": rc}
        if end:
            tail = open(os.path.join(wd, "stderr.txt"), errors="replace").read()[-600:]
        ev = []
        if os.path.exists(tr):
            for l in open(tr, errors="replace"):
                try:
                    ev.append(json.loads(l))
                except ValueError:
                    if end is None:
                        raise CheckError("bad event from driver: " + l[:300])
        if end:
            end["detail"] = "".join(c for c in tail if 32 <= ord(c) < 127)[-400:]
            ev.append(end)
        shutil.rmtree(wd, ignore_errors=True)
        if os.path.exists(tr):
            os.unlink(tr)
        return ev

    def check_traces(self, label, module, cfg, events, rerun=None, timeout=600, chunk=0, traces=None):
        """Accept recorded events by TLC. events: list of event dicts; traces start at events with e == 'new'.
        rerun: function(trace index) -> events of that trace executed again (confirmation), or None."""
        traces = split(events) if traces is None else traces
        if not traces:
            raise CheckError("no trace recorded for " + label)
        groups = [traces]
        if chunk and len(traces) > chunk:
            groups = [traces[i:i + chunk] for i in range(0, len(traces), chunk)]

        def one(g):
            p = tempfile.mktemp(prefix="tr_", suffix=".ndjson", dir=self.work)
            with open(p, "w") as f:
                for t in g:
                    for e in t:
                        f.write(json.dumps(e) + "\n")
            return self._accept(module, cfg, p, timeout)
        base = 0
        results = list(self.pool.map(one, groups))
        total = 0
        for g, (rej, gen, dist) in zip(groups, results):
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            if rej is None:
                total += len(g)
                self.cov["events_validated"] += sum(len(t) for t in g)
            else:
                why, line = rej
                k, n = 0, 0
                while k < len(g) and n + len(g[k]) < line:
                    n += len(g[k])
                    k += 1
                k = min(k, len(g) - 1)
                total += k
                self._rejected(label, module, cfg, g[k], line - n, why, base + k, rerun, timeout)
            base += len(g)
        self.cov["traces_validated_against_impl"] += total
        self.cov["trace_checks"].append({"label": label, "module": module, "traces": total, "events": len(events)})
        if traces and len(self.cov["samples"]) < 6:
            t = traces[self.rng.randrange(len(traces))]
            self.cov["samples"].append({"suite": label, "trace": t[:12]})

    def _rejected(self, label, module, cfg, trace, line, why, idx, rerun, timeout):
        # a recorded event that the specification does not allow is a violation by itself (it may need a rare schedule);
        # only a hang or a killed process, which the machine can cause too, has to happen again to count
        last = trace[min(max(line, 1), len(trace)) - 1]
        if rerun is not None and (last.get("e") == "hang" or (last.get("e") == "crash" and last.get("status") == -9)):
            ok = False
            for _ in range(3):
                ev = rerun(idx)
                p = tempfile.mktemp(prefix="tr_", suffix=".ndjson", dir=self.work)
                with open(p, "w") as f:
                    for e in ev:
                        f.write(json.dumps(e) + "\n")
                rej, _, _ = self._accept(module, cfg, p, timeout)
                if rej is not None:
                    ok, (why, line), trace = True, rej, ev
                    break
            if not ok:
                raise CheckError("%s: rejection of trace %d (%s) was not repeated" % (label, idx, why))
        line = min(max(line, 1), len(trace))
        self.violation(label, why, {"module": module, "cfg": cfg, "line": line, "event": trace[line - 1],
                                    "trace": trace, "trace_index": idx})

    def violation(self, label, why, data):
        self.violations.append((label, why, data))

    def finding(self, key):
        """True (and reported) if this failure is a listed known finding."""
        for k in self.known:
            if k["key"] == key:
                if key not in self.findings:
                    self.findings.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                return True
        return False

    # ---------------------------------------------------------------- end
    def finish(self):
        self.pool.shutdown(wait=True)
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        code = 0
        if self.violations:
            d = os.path.join(VERIF, "replays", self.pid)
            os.makedirs(d, exist_ok=True)
            for i, (label, why, data) in enumerate(self.violations[:5]):
                p = os.path.join(d, "%s-%d-%d.json" % (re.sub(r"\W+", "_", label), self.seed, i))
                with open(p, "w") as f:
                    json.dump({"property": self.pid, "suite": label, "why": why, **data}, f, indent=1)
                print("%s: %s: %s" % (label, why, json.dumps(data.get("event", ""))[:600]))
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            code = 1
        else:
            print("OK %s: %d states, %d traces validated, %.1fs" % (self.pid, self.cov["states"],
                  self.cov["traces_validated_against_impl"], time.time() - self.t0))
        shutil.rmtree(self.work, ignore_errors=True)
        return code


def split(events):
    t = []
    for e in events:
        if e.get("e") == "new" or not t:
            t.append([])
        t[-1].append(e)
    return t


def load_known(pid):
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == pid:
                    r.append({"key": m.group(2), "what": m.group(3)})
    return r


def main(fn, pid):
    ctx = Ctx(pid)
    try:
        fn(ctx)
        code = ctx.finish()
    except CheckError as e:
        print("CHECK ERROR %s: %s" % (pid, e))
        shutil.rmtree(ctx.work, ignore_errors=True)
        code = 1 if False else 2
    except subprocess.TimeoutExpired as e:
        print("CHECK ERROR %s: timeout %s" % (pid, str(e)[:300]))
        shutil.rmtree(ctx.work, ignore_errors=True)
        code = 2
    sys.stdout.flush()
    os._exit(code)

"""Builds, runs and records; asks TLC; reports."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, signal, subprocess, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC, HARN = f"{ROOT}/spec", f"{ROOT}/harness"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T4 = "dct1,dct2,dct3,dct4,dst1,dst2,dst3,dst4"
T8 = "dct5,dct6,dct7,dct8,dst5,dst6,dst7,dst8"
ALL = T4 + "," + T8
FAST = "dct1,dct2,dct3,dct4,dst1,dst2,dst3,dst4,dst6,dst7"


class ToolError(Exception):
    pass


def clean_env(extra=None):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC", "RUSTDOC", "JAVA_TOOL", "_JAVA", "TRACE", "FOCUS", "BOUND"))}
    env["RUST_BACKTRACE"] = "0"
    env["CARGO_TARGET_DIR"] = f"{HARN}/target"
    env.update(extra or {})
    return env


def clip(s, n=600):
    return s if len(s) <= n else s[:n] + f"... ({len(s)} characters)"


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.work = f"{ROOT}/work/{pid}-{tier}"
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.rng = random.Random(f"{seed}/{pid}/{tier}")
        self.t0 = time.time()
        # separate pools: a task of one waits only for tasks of the pools before it
        self.build_pool = cf.ThreadPoolExecutor(4)
        self.model_pool = cf.ThreadPoolExecutor(3)
        self.pool = cf.ThreadPoolExecutor(3)
        self.lock = threading.Lock()
        self.builds = {}
        self.models = []
        self.n = 0
        self.states = self.transitions = self.validated = 0
        self.engines, self.tlc_runs, self.samples, self.violations = [], [], [], []
        self.inconclusive = 0

    # ---------------------------------------------------------------- building
    def build(self, binary, profile):
        """start building; returns a future for the executable"""
        key = (binary, profile)
        with self.lock:
            if key not in self.builds:
                self.builds[key] = self.build_pool.submit(self._build, binary, profile)
            return self.builds[key]

    def _build(self, binary, profile):
        args = ["cargo", "build", "--offline", "--bin", binary]
        args += ["--release"] if profile == "release" else ["--profile", profile]
        r = subprocess.run(args, cwd=HARN, env=clean_env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError(f"build of {binary} ({profile}) failed:\n{r.stderr[-3000:]}")
        return f"{HARN}/target/{profile}/{binary}"

    # ---------------------------------------------------------------- running the code
    def number(self):
        with self.lock:
            self.n += 1
            return self.n

    def engine(self, binary, profile, cmd, stall=None, **kw):
        """run an engine of the harness in the background; future for the path of its trace"""
        out = f"{self.work}/t{self.number():02d}-{cmd}.nd"
        self.build(binary, profile)
        return self.pool.submit(self._engine, binary, profile, cmd, out, stall, kw)

    def _engine(self, binary, profile, cmd, out, stall, kw):
        exe = self.build(binary, profile).result()
        for k, v in list(kw.items()):
            if isinstance(v, cf.Future):
                kw[k] = v.result()
        kw = {"seed": self.seed, **kw, "out": out}
        argv = [exe, cmd] + [f"{k.rstrip('_')}={v}" for k, v in kw.items()]
        t = time.time()
        limit = stall or (300 if self.quick else 4 * 3600)
        p = subprocess.Popen(argv, env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                             start_new_session=True)
        hung = False
        try:
            so, se = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            hung = True
            os.killpg(p.pid, signal.SIGKILL)
            so, se = p.communicate()
        rec = {"engine": f"{binary}/{profile} {cmd} " + " ".join(f"{k.rstrip('_')}={clip(str(v), 120)}" for k, v in kw.items() if k != "out"),
               "seconds": round(time.time() - t, 1)}
        if hung:
            self.violate(f"{cmd}: calls that take seconds did not finish within {limit} s", argv, {"stdout": so[-500:], "stderr": se[-500:]})
        elif p.returncode == 2:
            raise ToolError(f"{' '.join(argv)}: {se[-2000:]}")
        elif p.returncode != 0:
            detail = {"exit": p.returncode, "stderr": se[-1500:]}
            if os.path.exists(out + ".fault"):
                detail["fault"] = open(out + ".fault", errors="replace").read()[-4000:]
            self.violate(f"{cmd}: the process running the library's calls died ({p.returncode})", argv, detail)
        else:
            m = re.search(r"STAT (.*)", so)
            if not m:
                raise ToolError(f"{' '.join(argv)}: no STAT line")
            st = dict(x.split("=") for x in m.group(1).split())
            rec.update({k: int(v) for k, v in st.items()})
            self.inconclusive += int(st.get("inconclusive", 0))
            if int(st.get("items", 0)) == 0:
                raise ToolError(f"{' '.join(argv)}: nothing was run")
        self.engines.append(rec)
        return out

    # ---------------------------------------------------------------- TLC
    def _tlc(self, module, cfg, env=None, extra=(), workers=8, xmx="8g", limit=None):
        md = f"{self.work}/md{self.number():02d}"
        argv = ["java", "-XX:+UseParallelGC", f"-Xmx{xmx}", "-Xss256m", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
                "-metadir", md, "-config", cfg, *extra, module]
        t = time.time()
        limit = limit or (600 if self.quick else 6 * 3600)
        try:
            r = subprocess.run(argv, cwd=SPEC, env=clean_env(env), capture_output=True, text=True, timeout=limit)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC on {module} {cfg} did not finish within {limit} s")
        finally:
            shutil.rmtree(md, ignore_errors=True)
        so = r.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", so)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m2 = re.findall(r"The number of states generated: (\d+)", so)
        if m2 and not m:
            gen = dist = int(m2[-1])
        rec = {"module": module, "config": cfg, "states": dist, "transitions": gen, "seconds": round(time.time() - t, 1)}
        with self.lock:
            self.tlc_runs.append(rec)
            self.states += dist
            self.transitions += gen
        return r.returncode, so, dist, rec

    def model(self, module, cfg, extra=(), workers=4, refuted=None):
        """check a model; it must hold (or, for a negative control, must be refuted by `refuted`)"""
        def go():
            rc, so, _, rec = self._tlc(module, cfg, extra=extra, workers=workers)
            rec["expected"] = "refuted" if refuted else "holds"
            if refuted is None:
                if rc != 0:
                    raise ToolError(f"TLC rejects the model {module} {cfg}:\n{so[-3000:]}")
            elif rc != 12 or f"Invariant {refuted} is violated" not in so:
                raise ToolError(f"negative control {module} {cfg} was not refuted ({rc}):\n{so[-2000:]}")
            return so
        f = self.model_pool.submit(go)
        self.models.append(f)
        return f

    def generate(self, module, cfg, tag, fmt, extra=(), workers=1, least=1):
        """behaviours of the specification, printed by TLC, as a file of lines in the harness's format"""
        path = f"{self.work}/g{self.number():02d}-{tag.lower()}.txt"

        def go():
            rc, so, _, _ = self._tlc(module, cfg, extra=extra, workers=workers)
            if rc != 0:
                raise ToolError(f"TLC rejects {module} {cfg}:\n{so[-3000:]}")
            hs = []
            for l in so.splitlines():
                l = l.strip()
                if l.startswith(f'"{tag} '):
                    hs.append(fmt(json.loads(json.loads(l)[len(tag) + 1:])))
            if len(hs) < least:
                raise ToolError(f"{module} {cfg} produced {len(hs)} behaviours")
            with open(path, "w") as f:
                f.write("\n".join(hs) + "\n")
            return path
        return self.model_pool.submit(go)

    def hists(self, cfg, num=None, depth=None, least=1):
        extra = ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(self.seed)] if num else []
        return self.generate("GenSession.tla", cfg, "HIST", lambda h: " ".join(":".join(map(str, s)) for s in h),
                             extra, workers=1 if num else 4, least=num or least)

    def schedules(self, cfg, num=None, depth=None, least=1):
        extra = ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(self.seed)] if num else []
        return self.generate("Concurrent.tla", cfg, "SCHED",
                             lambda h: f"{h[0]}:{h[1]} " + " ".join(f"{a - 1}:{b}" for a, b in h[2]),
                             extra, workers=1 if num else 4, least=num or least)

    def lives(self, cfg, num=None, depth=None, least=1):
        extra = ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(self.seed)] if num else []
        return self.generate("Lifecycle.tla", cfg, "LIFE",
                             lambda h: " ".join(f"{a}{s}:{x}" for a, s, x in h),
                             extra, workers=1 if num else 4, least=num or least)

    def merge(self, futs, name):
        path = f"{self.work}/{name}"
        lines = 0
        with open(path, "wb") as o:
            for f in futs:
                src = f.result()
                if not os.path.exists(src):
                    continue
                with open(src, "rb") as i:
                    for l in i:
                        if not l.endswith(b"\n"):       # the process died while writing
                            break
                        o.write(l)
                        lines += 1
                os.unlink(src)
        return path, lines

    CHUNK = 24_000_000

    def calls(self, futs, bound="loose", name="calls"):
        """validate stateless events against TraceCalls"""
        path, lines = self.merge(futs, f"{name}.nd")
        for part in self.chunks(path):
            self._calls(part, bound)

    def chunks(self, path):
        """TLC reads a whole trace into memory: keep each below CHUNK bytes"""
        if os.path.getsize(path) <= self.CHUNK:
            return [path]
        parts, o, size = [], None, 0
        with open(path, "rb") as i:
            for l in i:
                if o is None or size + len(l) > self.CHUNK:
                    if o:
                        o.close()
                    parts.append(f"{path}.{len(parts)}")
                    o, size = open(parts[-1], "wb"), 0
                o.write(l)
                size += len(l)
        o.close()
        os.unlink(path)
        return parts

    def _calls(self, path, bound):
        with open(path) as f:
            lines = f.read().splitlines()
        if not lines:
            return
        rc, so, dist, _ = self._tlc("TraceCalls.tla", "TraceCalls.cfg", {"TRACE": path, "BOUND": bound})
        if rc != 0 or dist != len(lines) + 32:
            raise ToolError(f"trace validation of {path}: exit {rc}, {dist} states for {len(lines)} events\n{so[-3000:]}")
        self.validated += len(lines)
        rej = sorted({int(x) for x in re.findall(r'<<"REJECT", (\d+)>>', so)})
        evs = [json.loads(lines[l - 1]) for l in rej]
        for l, e in zip(rej, evs):
            if e["e"] == "def":
                raise ToolError(f"the harness's reference and Defs disagree: {clip(lines[l - 1])}")
        for e in evs[:20]:
            self.violate("the specification does not allow this event" + f" (bounds: {bound})", None, e)
        if len(rej) > 20:
            self.violate(f"and {len(rej) - 20} further events", None, {})
        for q in (0, len(lines) // 2, len(lines) - 1):
            self.samples.append(clip(lines[q], 300))

    def stages(self, fut):
        """do the algorithms proceed as Stages says? Reported, not judged: they need not."""
        self.models.append(self.model_pool.submit(self._stages, fut))

    def _stages(self, fut):
        path = fut.result()
        if not os.path.exists(path):
            return
        with open(path) as f:
            lines = f.read().splitlines()
        rc, so, dist, rec = self._tlc("TraceStages.tla", "TraceStages.cfg", {"TRACE": path}, workers=4)
        other = sorted({int(x) for x in re.findall(r'<<"OTHERWISE", (\d+)>>', so)})
        rec["calls"] = len(lines)
        if rc != 0 or dist != len(lines) + 32:      # not in the form of the model at all
            rec["as_modelled"] = "unknown"
            return
        rec["as_modelled"] = len(lines) - len(other)
        rec["otherwise"] = sorted({(e["alg"], e["op"]) for e in (json.loads(lines[k - 1]) for k in other)})

    def session(self, futs, focus, long=False):
        """validate histories against TraceSession"""
        self._histories(futs, "TraceSession", {"FOCUS": focus}, "TraceSessionLong" if long else None)

    def memory(self, futs, long=False):
        """validate histories of memory use against TraceMemory; number types of one size"""
        self._histories(futs, "TraceMemory", {}, "TraceMemoryLong" if long else None)

    def _histories(self, futs, module, env, cfg=None):
        path, n = self.merge(futs, f"{module}{self.number()}.nd")
        for part in self.chunks(path):
            with open(part) as f:
                lines = f.read().splitlines()
            evs = [json.loads(l)["evs"] for l in lines]
            want = sum(len(e) + 1 for e in evs)
            rc, so, dist, _ = self._tlc(f"{module}.tla", f"{cfg or module}.cfg", {"TRACE": part, **env})
            rej = sorted({(int(a), int(b)) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', so)})
            lost = len(re.findall(r'<<"LOST", ', so))     # requests whose acceptance is another property's business
            if rc != 0 or (dist != want and not rej and not lost):
                raise ToolError(f"trace validation of {part}: exit {rc}, {dist} states, {want} expected\n{so[-3000:]}")
            self.validated += len(lines)
            for h, l in rej[:20]:
                self.violate(f"step {l} is not one the specification allows after the steps before it", None,
                             {"history": evs[h - 1][:l], "rejected": evs[h - 1][l - 1] if l <= len(evs[h - 1]) else None})
            for q in {0, len(lines) - 1}:
                self.samples.append(clip(lines[q], 300))

    # ---------------------------------------------------------------- verdict
    def violate(self, why, argv, event):
        os.makedirs(f"{ROOT}/replay", exist_ok=True)
        body = {"property": self.pid, "why": why, "observed": event, "command": argv,
                "rerun": f"cd {ROOT} && VERIF_SEED={self.seed} python3 check.py {self.pid} {self.tier}"}
        text = json.dumps(body, indent=1)
        name = f"{self.pid}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json"
        with open(f"{ROOT}/replay/{name}", "w") as f:
            f.write(text + "\n")
        self.violations.append((f"replay/{name}", why, event))

    def finish(self):
        if not self.violations:
            for f in self.models:
                f.result()
        known = open_findings(self.pid)
        fresh, listed = [], {}
        for path, why, ev in self.violations:
            k = next((k for k in known if matches(k, ev)), None)
            if k:
                listed.setdefault(k["text"], path)
            else:
                fresh.append((path, why, ev))
        for t in listed:
            print(f"KNOWN-FINDING: property={self.pid} {t}")
        level = "model_checking"
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.validated,
                "exact_runs_inconclusive": self.inconclusive,
                "samples": self.samples[:8] or ["none"],
                "tlc_runs": self.tlc_runs, "engines": self.engines,
            },
            "assumptions": ["TLC, the JSON reader of the CommunityModules and the harness's recording of calls are trusted",
                            "lengths, inputs, histories and schedules beyond those listed in coverage are not explored"],
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(fresh),
        }
        os.makedirs(f"{ROOT}/evidence", exist_ok=True)
        with open(f"{ROOT}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for path, why, e in fresh[:5]:
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"  {why}: {clip(json.dumps(e), 500)}")
        if not fresh:
            print(f"{self.pid} {self.tier}: held; {self.validated} recorded events or histories validated, {self.states} states, {ev['wall_s']} s")
            shutil.rmtree(self.work, ignore_errors=True)
        return 1 if fresh else 0


def open_findings(pid):
    """lines  finding: property=<id> match=<json subset of the event> <what fails>"""
    out = []
    try:
        for l in open(f"{ROOT}/known-findings.txt"):
            m = re.match(r"finding: property=(\S+) match=(\{.*?\}) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append({"match": json.loads(m.group(2)), "text": m.group(3)})
    except FileNotFoundError:
        pass
    return out


def matches(k, ev):
    return isinstance(ev, dict) and bool(k["match"]) and all(ev.get(a) == b for a, b in k["match"].items())


def spread(rng, lo, hi, count):
    """random lengths, log-uniform"""
    s = set()
    while len(s) < count:
        s.add(int(round(lo * (hi / lo) ** rng.random())))
    return sorted(s)


def js(xs):
    return ",".join(map(str, xs))


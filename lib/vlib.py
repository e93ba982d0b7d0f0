"""Driver plumbing: build the harness, run requests through the real code, run TLC, report."""
import fcntl, json, os, random, re, resource, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = int(os.environ.get("VERIF_CPUS", min(8, os.cpu_count() or 8)))
FACTOR = float(os.environ.get("VERIF_FACTOR", "1"))     # development only: scales the sampled sizes


class ToolError(Exception):
    pass


class Enough(Exception):
    """so many executions died or never answered that the rest of the sample is not worth running"""


def build_env():
    env = dict(os.environ)
    env.update(
        HOME="/root",
        PATH="/root/.cargo/bin:" + env.get("PATH", ""),
        RUSTUP_TOOLCHAIN="nightly-2025-05-01",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        CARGO_TARGET_DIR=os.path.join(VERIF, "harness", "target"),
        RUSTC_WRAPPER="",
    )
    for k in ("CARGO_PROFILE_DEV_OPT_LEVEL", "CARGO_PROFILE_DEV_DEBUG", "RUSTFLAGS"):
        env.pop(k, None)
    return env


def build():
    os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
    with open(os.path.join(VERIF, "work", "build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(
            ["cargo", "build", "--offline", "--quiet"],
            cwd=os.path.join(VERIF, "harness"),
            env=build_env(),
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
        )
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout[-4000:])
    return os.path.join(VERIF, "harness", "target", "debug", "gpfh")


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(f"{prop}-{self.seed}")
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", f"{prop}-{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.rep = os.path.join(VERIF, "replay", prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.rejects = []
        self.samples = []
        self.notes = {}
        self.models = []
        self.exe = None
        self.dead = []          # executions that died or never answered
        self.lost = 0.0         # seconds they cost
        self.lock = threading.Lock()

    def scale(self, quick, thorough):
        x = thorough if self.thorough else quick
        return max(20, int(x * FACTOR)) if FACTOR != 1 and isinstance(x, int) and x >= 100 else x

    def log(self, *a):
        print(f"[{self.prop} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    def path(self, name):
        return os.path.join(self.work, name)

    # ---------------------------------------------------------------- real code
    def execute(self, reqs, stall=20.0):
        """Run the requests through the real code.  A panic, an abort or a stall is an observation."""
        if self.exe is None:
            self.exe = build()
        for i, r in enumerate(reqs):
            r["id"] = i
        n = max(1, min(NCPU, (len(reqs) + 3) // 4))
        shards = [reqs[i::n] for i in range(n)]
        self.deadline = time.time() + (3600 if self.thorough else 240)
        outs = [None] * n
        errs = []

        def work(k):
            try:
                outs[k] = self._shard(shards[k], k, stall)
            except Exception as e:  # noqa
                errs.append(e)
                self.lost = max(self.lost, 0 if not isinstance(e, Enough) else 1000)

        th = [threading.Thread(target=work, args=(k,)) for k in range(n)]
        [t.start() for t in th]
        [t.join() for t in th]
        for e in errs:
            if not isinstance(e, Enough):
                raise e
        if errs:
            raise errs[0]
        res = [r for o in outs for r in o]
        res.sort(key=lambda r: r["id"])
        if len(res) != len(reqs):
            if time.time() < self.deadline or not res:
                raise ToolError(f"executor lost requests: {len(res)} of {len(reqs)}")
            self.log(f"the real code is slow: {len(res)} of {len(reqs)} executions in the time allowed")
            self.notes["executions_skipped_for_time"] = len(reqs) - len(res)
        return res

    def _shard(self, reqs, k, stall):
        tag = f"{time.time_ns()}-{k}"
        fin, fout = self.path(f"in-{tag}"), self.path(f"out-{tag}")
        with open(fin, "w") as f:
            for r in reqs:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        open(fout, "w").close()
        done = 0
        extra = []
        while done < len(reqs):
            p = subprocess.Popen(
                [self.exe, fin, fout, str(done)],
                stdout=subprocess.DEVNULL,
                stderr=subprocess.PIPE,
                preexec_fn=_limits,
                text=True,
            )
            last, lastsize = time.time(), -1
            why, over = None, False
            while True:
                try:
                    p.wait(timeout=0.2)
                    break
                except subprocess.TimeoutExpired:
                    pass
                sz = os.path.getsize(fout)
                if sz != lastsize:
                    last, lastsize = time.time(), sz
                elif time.time() - last > stall:
                    p.kill()
                    p.wait()
                    why = "no answer (endless loop)"
                    break
                if self.lost > 100 or time.time() > self.deadline:
                    over = True
                    p.kill()
                    p.wait()
                    break
            if over and self.lost > 100:
                raise Enough()
            if over:
                with open(fout) as f:
                    lines = f.read().split("\n")[:-1]
                os.unlink(fin)
                os.unlink(fout)
                return [json.loads(x) for x in lines if x.strip()]
            err = p.stderr.read()
            if p.returncode == 3:
                raise ToolError("harness refused a request: " + err[-500:])
            with open(fout) as f:
                lines = f.read().split("\n")
            lines = [x for x in lines[:-1]]
            with open(fout, "w") as f:  # drop a torn last line
                f.write("".join(x + "\n" for x in lines))
            have = len(lines)
            if have >= len(reqs):
                break
            if p.returncode == 0 and why is None:
                raise ToolError("executor stopped early: " + err[-500:])
            r = dict(reqs[have])
            r["obs"] = {"crash": why or f"process died with {p.returncode} {err[-200:]}"}
            with self.lock:
                self.dead.append(r)
                self.lost += time.time() - last
            with open(fout, "a") as f:
                f.write(json.dumps(r) + "\n")
            done = have + 1
        with open(fout) as f:
            res = [json.loads(x) for x in f if x.strip()]
        os.unlink(fin)
        os.unlink(fout)
        return res

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=None, timeout=600, args=(), heap="4g", sub=None):
        d = self.path(f"tlc-{module}-{time.time_ns()}")
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = [
            "java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-Xss64m", "-cp", TLA_CP, "tlc2.TLC",
            "-config", module + ".cfg", "-workers", str(workers or NCPU), "-metadir", os.path.join(d, "st"),
            "-nowarning", *args, module + ".tla",
        ]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module}")
        out = "\n".join(x for x in p.stdout.split("\n") if not x.startswith(("Parsing file", "Semantic processing", "Linting of")))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        st = tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        shutil.rmtree(d, ignore_errors=True)
        return p.returncode, out, st

    def model(self, module, cfg, what, timeout=600, args=(), expect_ok=True, workers=None):
        """Check a design model exhaustively.  It does not depend on the code: failing is our error."""
        if FACTOR != 1:
            return ""
        rc, out, st = self.tlc(module, cfg, timeout=timeout, args=args, workers=workers)
        ok = rc == 0 and ("No error has been found" in out or "-simulate" in args)
        if not ok:
            raise ToolError(f"design model {module} failed (rc {rc}):\n" + out[-3000:])
        self.transitions += st[0]
        self.states += st[1]
        self.models.append({"module": module, "what": what, "states": st[1], "transitions": st[0]})
        self.log(f"model {module}: {what}: {st[1]} distinct states, {st[0]} transitions")
        return out

    def generate(self, module, cfg, timeout=600, args=(), what=""):
        """Let TLC enumerate behaviours/inputs of a spec: it prints lines GEN|<json>."""
        rc, out, st = self.tlc(module, cfg, timeout=timeout, args=args)
        if rc != 0:
            raise ToolError(f"generator {module} failed (rc {rc}):\n" + out[-3000:])
        gens = []
        for line in out.split("\n"):
            if line.startswith('"GEN|'):
                gens.append(json.loads(json.loads(line)[4:]))
        self.transitions += st[0]
        self.states += st[1]
        self.models.append({"module": module, "what": what or "behaviours generated for replay", "states": st[1], "transitions": st[0], "behaviours": len(gens)})
        self.log(f"generator {module}: {len(gens)} behaviours, {st[1]} distinct states")
        return gens

    def judge(self, module, recs, cfg_extra="", timeout=800, chunk=50000):
        """Validate recorded executions against the specification; TLC decides."""
        if not recs:
            raise ToolError(f"nothing to judge for {module}")
        if len(recs) > chunk:
            for i in range(0, len(recs), chunk):
                self.judge(module, recs[i:i + chunk], cfg_extra, timeout, chunk)
            return
        f = self.path(f"trace-{module}-{time.time_ns()}.ndjson")
        with open(f, "w") as h:
            for i, r in enumerate(recs):
                r["id"] = i
                h.write(json.dumps(r, separators=(",", ":")) + "\n")
        cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceDone\n" + cfg_extra
        rc, out, st = self.tlc(module, cfg, env={"TRACE": f}, timeout=timeout)
        rej = {}
        for m in re.finditer(r'^"REJECT\|(\d+)\|(.*)"$', out, re.M):
            rej.setdefault(int(m.group(1)), m.group(2).replace('\\"', '"'))
        if rc != 0 or "No error has been found" not in out:
            raise ToolError(f"trace validation {module} failed (rc {rc}):\n" + out[-3500:])
        self.transitions += st[0]
        self.states += st[1]
        self.traces += len(recs)
        os.unlink(f)
        for i, why in sorted(rej.items()):
            self.rejects.append((module, recs[i], why))
        self.log(f"judge {module}: {len(recs)} traces, {len(rej)} rejected, {st[0]} transitions")
        step = max(1, len(recs) // 2)
        for r in recs[::step][:2]:
            s = json.dumps(r)
            self.samples.append({"spec": module, "trace": s[:1500]})
        return rej

    # ---------------------------------------------------------------- verdict
    def finish(self, level="model_checking", extra=None, assumptions=None):
        known = load_known(self.prop)
        viol, kn = [], {}
        for mod, rec, why in self.rejects:
            k = match_known(known, rec, why)
            if k is not None:
                kn.setdefault(k, []).append((rec, why))
            else:
                viol.append((mod, rec, why))
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "models": self.models,
            "samples": self.samples[:8],
            "known_finding_hits": {k: len(v) for k, v in kn.items()},
        }
        cov.update(extra or {})
        cov.update(self.notes)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": cov, "assumptions": assumptions or [], "wall_s": round(time.time() - self.t0, 1),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known:
            if k.get("status") == "known":
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        shutil.rmtree(self.work, ignore_errors=True)
        if viol:
            os.makedirs(self.rep, exist_ok=True)
            for i, (mod, rec, why) in enumerate(viol[:5]):
                pth = os.path.join(self.rep, f"{i}.json")
                with open(pth, "w") as f:
                    json.dump({"spec": mod, "why": why, "trace": rec}, f)
                self.log("rejected by", mod, why[:300])
                print(f"VIOLATION property={self.prop} replay={pth}", flush=True)
            import collections
            self.log(f"{len(viol)} traces rejected: {collections.Counter(w[:160] for _, _, w in viol).most_common(12)}")
            return 1
        self.log("ok")
        return 0


def load_known(prop):
    """known: {json}  lists a finding; fixed: ... lines only document and suppress nothing"""
    p = os.path.join(VERIF, "known_findings.txt")
    rows = []
    if os.path.exists(p):
        with open(p) as f:
            for x in f:
                if x.startswith("known:"):
                    r = json.loads(x[6:])
                    r["status"] = "known"
                    rows.append(r)
    return [r for r in rows if r["property"] == prop]


def match_known(known, rec, why):
    """A known finding suppresses exactly the listed inputs (request fields without id/obs)."""
    for i, k in enumerate(known):
        if k.get("status") != "known":
            continue
        req = {a: b for a, b in rec.items() if a not in ("id", "obs")}
        for inp in k["inputs"]:
            if inp == req:
                return k.get("key", str(i))
    return None


def main(table):
    prop = sys.argv[1]
    try:
        c = Ctx(prop)
        try:
            rc = table[prop](c)
        except Enough:
            # every request is a valid use, so dying or hanging on one breaks the property by itself
            c.rejects += [("executor", r, "the real code " + r["obs"]["crash"]) for r in c.dead]
            rc = c.finish()
    except ToolError as e:
        print("ERROR", e, flush=True)
        rc = 2
    sys.exit(rc)

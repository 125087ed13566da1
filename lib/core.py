"""Shared machinery: building the driver, executing cases on the real code, running TLC,
evidence, known findings and verdicts.  See DESIGN.md."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


class CheckError(Exception):
    """The check itself could not be carried out (never a violation)."""


def goenv():
    e = dict(os.environ)
    e.update(PATH="/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", CGO_ENABLED="0",
             HOME="/root", GOMODCACHE="/root/go/pkg/mod")
    if "GOCACHE" not in os.environ:
        e["GOCACHE"] = "/root/.cache/go-build"
    return e


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.driver = None
        self.states = 0          # distinct states found by TLC, all models and trace specs of this run
        self.transitions = 0     # states generated by TLC
        self.models = []         # per TLC run: name, states, generated, seconds
        self.traces = 0          # traces (recorded executions) TLC judged
        self.steps = 0           # events in them
        self.executions = 0      # executions of real code
        self.samples = []
        self.extra = {}
        self.rejects = []

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, q, t):
        return q if self.quick else t

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ------------------------------------------------------------------ build
    def build(self):
        if self.driver:
            return self.driver
        ov = {"Replace": {}}
        for f in os.listdir(REPO):
            # the repository's own tests of package main are replaced by the driver
            if f.endswith("_test.go"):
                ov["Replace"][os.path.join(REPO, f)] = ""
        ov["Replace"][os.path.join(REPO, "zz_verif_driver_test.go")] = os.path.join(VERIF, "harness", "driver_test.go")
        ovf = os.path.join(self.work, "overlay.json")
        json.dump(ov, open(ovf, "w"))
        out = os.path.join(self.work, "driver")
        p = subprocess.run(["go", "test", "-c", "-overlay", ovf, "-o", out, "."], cwd=REPO, env=goenv(),
                           capture_output=True, text=True, timeout=600)
        if p.returncode != 0 or not os.path.exists(out):
            raise CheckError("driver does not build:\n" + p.stdout + p.stderr)
        self.driver = out
        return out

    # ---------------------------------------------------------------- execute
    def _shard(self, k, cases, env, timeout_s):
        """Run cases one after another in driver processes; restart after a death."""
        outs = {}
        pending = list(cases)
        d = os.path.join(self.work, "shard-%d-%d" % (k, random.getrandbits(40)))
        os.makedirs(os.path.join(d, "s"))
        attempt = 0
        while pending:
            attempt += 1
            fin, fout = os.path.join(d, "in%d" % attempt), os.path.join(d, "out%d" % attempt)
            with open(fin, "w") as f:
                for c in pending:
                    f.write(json.dumps(c) + "\n")
            e = dict(os.environ, NO_COLOR="1", VERIF_IN=fin, VERIF_OUT=fout, VERIF_SCRATCH=os.path.join(d, "s"),
                     VERIF_TIMEOUT=str(timeout_s), GOTRACEBACK="single", GOMAXPROCS="4")
            e.pop("OSV_DETECTOR_PREFER_API", None)
            for v in ("HTTP_PROXY", "HTTPS_PROXY", "http_proxy", "https_proxy"):
                e.pop(v, None)
            e.update(env or {})
            with open(os.path.join(d, "log"), "wb") as lg:
                p = subprocess.run([self.driver, "-test.run", "^TestVerifDriver$", "-test.timeout", "0"], env=e, cwd=d,
                                   stdout=lg, stderr=subprocess.STDOUT)
            got = 0
            if os.path.exists(fout):
                for line in open(fout):
                    try:
                        r = json.loads(line)
                    except ValueError:
                        continue
                    outs[r["id"]] = r["outs"]
                    got += 1
            log = open(os.path.join(d, "log"), errors="replace").read()
            if p.returncode == 0 and got == len(pending):
                pending = []
                break
            if p.returncode == 7:      # a hang was recorded as that case's outcome
                pending = pending[got:]
                continue
            if "bad case" in log or "harness:" in log or "--- FAIL: TestVerifDriver" in log and "panic" not in log:
                raise CheckError("driver failed: " + log[-2000:])
            if p.returncode in (-9, 137):
                raise CheckError("driver was killed (out of memory?)")
            if got < len(pending):
                c = pending[got]
                # the process itself ended while executing this case
                outs[c["id"]] = [{"died": True, "log": log[-3000:], "rc": p.returncode}]
                pending = pending[got + 1:]
            else:
                raise CheckError("driver exit %s: %s" % (p.returncode, log[-2000:]))
        shutil.rmtree(d, ignore_errors=True)
        return outs

    def execute(self, cases, env=None, timeout_s=60, jobs=None):
        """cases: list of dicts with unique 'id'. Returns {id: [step outputs]}."""
        self.build()
        jobs = jobs or NPROC
        n = max(1, min(jobs, (len(cases) + 3) // 4))
        shards = [cases[i::n] for i in range(n)]
        outs = {}
        with ThreadPoolExecutor(n) as ex:
            for r in ex.map(lambda a: self._shard(a[0], a[1], env, timeout_s), enumerate(shards)):
                outs.update(r)
        self.executions += len(cases)
        missing = [c["id"] for c in cases if c["id"] not in outs]
        if missing:
            raise CheckError("no observation for cases %s" % missing[:5])
        return outs

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, name=None, env=None, workers=None, args=(), timeout=800, heap="4g", defs=None):
        """Run TLC on spec/<module>.tla with configuration text or file `cfg`."""
        name = name or module
        d = os.path.join(self.work, "tlc-%s-%d" % (re.sub(r"\W", "_", name), random.getrandbits(40)))
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        cfgp = os.path.join(d, "run.cfg")
        if "\n" in cfg:
            open(cfgp, "w").write(cfg)
        else:
            shutil.copy(os.path.join(SPEC, cfg), cfgp)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", JAR]
        cmd += ["tlc2.TLC", "-config", "run.cfg", "-metadir", os.path.join(d, "meta"),
                "-workers", str(workers or NPROC), "-noGenerateSpecTE"] + list(args) + [module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + name)
        out = p.stdout + p.stderr
        m = re.findall(r"(\d+) states generated.*?, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.states += dist
        self.transitions += gen
        self.models.append({"model": name, "distinct_states": dist, "states_generated": gen,
                            "seconds": round(time.time() - t, 1)})
        shutil.rmtree(d, ignore_errors=True)
        return p.returncode, out, dist, gen

    def model(self, module, cfg, name=None, **kw):
        """Exhaustively check a design model; it must hold (it does not depend on /repo)."""
        rc, out, dist, gen = self.tlc(module, cfg, name, **kw)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("the specification itself fails its properties (%s):\n%s" % (name or module, out[-3000:]))
        if dist == 0:
            raise CheckError("vacuous model run: " + (name or module))
        return out

    def generate(self, module, cfg, name=None, **kw):
        """Behaviours / states the specification emits with PrintT(<<"GEN", ToJson(x)>>)."""
        out = self.model(module, cfg, name, **kw)
        seen, res = set(), []
        for m in re.finditer(r'<<\s*"GEN",\s*("(?:[^"\\]|\\.)*")\s*>>', out):
            t = json.loads(m.group(1))
            if t not in seen:
                seen.add(t)
                res.append(json.loads(t))
        if not res:
            raise CheckError("the specification generated nothing: " + module)
        res.sort(key=lambda x: json.dumps(x, sort_keys=True))
        return res

    def parallel(self, f, xs, n=4):
        with ThreadPoolExecutor(n) as ex:
            return list(ex.map(f, xs))

    def judge(self, module, records, name=None, cfg=None, chunk=None, key="TRACE", heap="3g"):
        """Let TLC decide which recorded executions the specification rejects.

        Every record is one behaviour.  The trace specification prints
        <<"ACCEPT", n>> or <<"REJECT", n, step, why>> once per record.
        Returns {index: (step, why)} for the rejected ones."""
        if not records:
            return {}
        cfg = cfg or "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n"
        chunk = chunk or max(200, (len(records) + 3) // 4)
        parts = [(i, records[i:i + chunk]) for i in range(0, len(records), chunk)]

        def one(a):
            base, part = a
            tf = os.path.join(self.work, "trace-%d.ndjson" % random.getrandbits(48))
            with open(tf, "w") as f:
                for r in part:
                    f.write(json.dumps(r) + "\n")
            rc, out, dist, gen = self.tlc(module, cfg, (name or module) + "/trace", env={key: tf},
                                          workers=max(1, NPROC // min(4, len(parts))), heap=heap)
            os.unlink(tf)
            acc = {int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', out)}
            rej = {}
            # TLC breaks long tuples over several lines
            for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),(.*?)>>END', re.sub(r'"END"\s*>>', '>>END', out), re.S):
                rej[int(m.group(1))] = (int(m.group(2)), re.sub(r"\s+", " ", m.group(3)).strip(" ,"))
            if rc != 0 or acc | set(rej) != set(range(1, len(part) + 1)) or acc & set(rej):
                raise CheckError("trace specification %s did not decide every record (rc=%s, %d accepted, %d rejected of %d):\n%s"
                                 % (module, rc, len(acc), len(rej), len(part), out[-3000:]))
            return {base + i - 1: v for i, v in rej.items()}

        res = {}
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(one, parts):
                res.update(r)
        self.traces += len(records)
        return res


# ------------------------------------------------------------------- verdicts
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def level_of(prop):
    try:
        m = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        pass
    return "model_checking"


def finish(ctx, violations, assumptions=()):
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level_of(ctx.prop),
        "coverage": dict({
            "states": ctx.states, "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.traces,
            "executions_of_real_code": ctx.executions,
            "tlc_runs": ctx.models,
            "samples": ctx.samples[:4],
        }, **ctx.extra),
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - ctx.t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for v in violations:
        print("VIOLATION property=%s replay=%s" % (ctx.prop, v))
    return 1 if violations else 0


def save_replay(ctx, suite, n, payload):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%d.json" % (ctx.prop, suite, n))
    with open(p, "w") as f:
        json.dump(payload, f, indent=1, default=str)
    return p

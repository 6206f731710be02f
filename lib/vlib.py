"""Shared machinery of the checks: build a driver from /repo's working tree, run it,
hand its recorded trace to TLC, write the evidence file and the verdict."""
import atexit, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FIERRO_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
DRIVERS = os.path.join(VERIF, "drivers")
JARS = "/opt/veriftools/tla/tla2tools.jar"
NCPU = min(8, os.cpu_count() or 4)
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]


class CheckError(Exception):
    """The check itself could not give an answer."""


class Violation(Exception):
    def __init__(self, what, detail=""):
        super().__init__(what)
        self.what, self.detail = what, detail


class Ctx:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = seed if seed is not None else int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        self.dir = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        atexit.register(shutil.rmtree, self.dir, True)
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples, self.notes, self.assumptions, self.known = [], {}, [], []
        self.odd = set()

    def path(self, name):
        return os.path.join(self.dir, name)

    # ------------------------------------------------------------- building
    def compile(self, name, sources, includes=(), flags=(), opt="-O1", san=True, cxx="g++"):
        exe = self.path(name)
        cmd = [cxx, "-std=c++17", opt, "-g1", "-w", "-o", exe]
        cmd += (SAN if san else []) + list(flags) + ["-I" + DRIVERS] + ["-I" + i for i in includes] + list(sources)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("cannot build %s:\n%s\n%s" % (name, " ".join(cmd), r.stderr[-4000:]))
        return exe

    def compile_all(self, jobs):
        """jobs: list of kwargs for compile; built in parallel."""
        with cf.ThreadPoolExecutor(NCPU) as ex:
            return [f.result() for f in [ex.submit(lambda j=j: self.compile(**j)) for j in jobs]]

    # -------------------------------------------------------------- running
    def run(self, cmd, timeout=600, env=None, cwd=None, stdin=None, ok=(0,)):
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=97:allow_user_segv_handler=1:handle_segv=0:handle_abort=0",
                 UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=97")
        e.update(env or {})
        try:
            r = subprocess.run(cmd, capture_output=True, timeout=timeout, env=e, cwd=cwd, input=stdin)
        except subprocess.TimeoutExpired as x:
            raise Violation("the code under test did not finish within %d s: %s" % (timeout, " ".join(map(str, cmd))),
                            (x.stderr or b"").decode("latin1")[-3000:])
        r.err = r.stderr.decode("latin1")
        r.text = r.stdout.decode("latin1")
        if r.returncode not in ok:
            raise Violation("the code under test died or hung (exit %d)" % r.returncode, " ".join(map(str, cmd)) + "\n" + r.err[-6000:])
        return r

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=1, args=(), timeout=800, heap="2g"):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta,
               "-cp", _classpath(), "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
               "-config", os.path.join(SPECS, (cfg or module) + ".cfg")] + list(args) + [os.path.join(SPECS, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=meta)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC did not finish %s within %d s" % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        if m:
            gen, dis = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"([\d,]+) states checked|The number of states generated: ([\d,]+)", out)
            gen = dis = int((m[-1][0] or m[-1][1]).replace(",", "")) if m else 0
        return TlcResult(r.returncode, out + r.stderr, gen, dis)

    def model_check(self, module, cfg=None, env=None, timeout=800, workers=None, args=(), heap="6g"):
        """The specification itself: exhaustive check of its properties within the constants of cfg."""
        r = self.tlc(module, cfg, env, workers or NCPU, args, timeout, heap)
        if r.rc != 0:
            raise CheckError("the model %s does not satisfy its own properties (or TLC failed):\n%s" % (cfg or module, r.out[-4000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.notes.setdefault("exhaustive_models", []).append({"config": cfg or module, "distinct_states": r.distinct, "transitions": r.generated})
        return r

    def generate(self, module, cfg=None, env=None, args=(), workers=1, timeout=800, heap="4g", tag="CASE"):
        """Behaviours of the specification, printed by TLC as "TAG json" lines."""
        r = self.tlc(module, cfg, env, workers, args, timeout, heap)
        if r.rc != 0:
            raise CheckError("TLC could not generate cases from %s:\n%s" % (cfg or module, r.out[-4000:]))
        pre = '"%s ' % tag
        cases = []
        for line in r.out.splitlines():
            if line.startswith(pre) and line.endswith('"'):
                cases.append(json.loads(_untla(line[len(pre):-1])))
        self.states += r.distinct
        self.transitions += r.generated
        self.notes.setdefault("generated_from", []).append({"config": cfg or module, "states": r.distinct, "cases": len(cases)})
        return cases

    # ---------------------------------------------------- trace validation
    def validate(self, module, trace, start=None, cfg=None, chunk=3000, what="", env=None, timeout=800, quiet=False):
        """Every recorded event must be a step the specification allows.
        start(event) -> True where a chunk may begin (the specification's state is reset there)."""
        with open(trace) as f:
            lines = [x for x in f if x.strip()]
        if not lines:
            raise CheckError("empty trace " + trace)
        parts, cur = [], []
        for x in lines:
            if len(cur) >= chunk and (start is None or start(x)):
                parts.append(cur)
                cur = []
            cur.append(x)
        parts.append(cur)
        d = tempfile.mkdtemp(prefix="tr-", dir=self.dir)
        files = []
        for i, p in enumerate(parts):
            fn = os.path.join(d, "t%d.ndjson" % i)
            with open(fn, "w") as f:
                f.writelines(p)
            files.append(fn)

        def one(fn):
            return self.tlc(module, cfg, dict(env or {}, TRACE=fn), 1, (), timeout)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, files))
        bad = []
        for fn, p, r in zip(files, parts, res):
            self.odd.update(re.findall(r'^"KNOWN (.*)"$', r.out, re.M))     # deviations a known finding may explain
            self.states += r.distinct
            self.transitions += r.generated
            if r.rc != 0:
                r2 = one(fn)                      # a rejection counts only if it repeats
                if r2.rc == 0 or not (r.mismatch and r2.mismatch and r.mismatch[0] == r2.mismatch[0]):
                    raise CheckError("TLC gave no stable answer on a trace of %s:\n%s" % (module, r2.out[-4000:]))
                l = int(r.mismatch[0])
                bad.append((p, l, r.mismatch[1]))
                self.validated += l - 1
            else:
                m = re.search(r'^"USED (\d+)"', r.out, re.M)   # events inside the property's domain
                if m:
                    self.notes["events_recorded"] = self.notes.get("events_recorded", 0) + len(p)
                self.validated += int(m.group(1)) if m else len(p)
        shutil.rmtree(d, ignore_errors=True)
        if bad and not quiet:
            p, l, exp = bad[0]
            lo = l - 1
            while lo > 0 and start is not None and not start(p[lo]) and l - lo < 60:
                lo -= 1
            raise Violation("%s: a recorded event is not allowed by the specification %s" % (what, module),
                            "event:\n%s\nspecification allows:\n%s\nhistory (from the last reset):\n%s" % (p[l - 1], exp, "".join(p[lo:l])))
        return bad

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if len(str(s)) < 2500 else str(s)[:2500] + "…")

    def sample_trace(self, trace, n=2):
        with open(trace) as f:
            lines = f.readlines()
        for i in range(n):
            k = (i * 7919 + 3) % len(lines) if lines else 0
            self.sample(lines[k].strip())

    # -------------------------------------------------------------- verdict
    def evidence(self, violations):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
               "samples": self.samples}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations,
              "known_findings": self.known}
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def known_findings(self):
        """Lines 'finding: property=<id> input=<json> ...' of KNOWN_FINDINGS for this property."""
        out = []
        fn = os.path.join(VERIF, "KNOWN_FINDINGS")
        if os.path.exists(fn):
            for line in open(fn):
                if line.startswith("finding: property=%s " % self.prop):
                    out.append(line.split(" ", 2)[2].strip())
        return out

    def report_known(self, text):
        self.known.append(text)
        print("KNOWN-FINDING: property=%s %s" % (self.prop, text), flush=True)


class TlcResult:
    def __init__(self, rc, out, generated, distinct):
        self.rc, self.out, self.generated, self.distinct = rc, out, generated, distinct
        m = re.search(r'^"MISMATCH (\d+) (.*)"$', out, re.M)
        self.mismatch = (m.group(1), _untla(m.group(2))) if m else None


def _untla(s):
    """Undo the escapes of a printed TLA+ string."""
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(m.group(1), m.group(1)), s)


_cp = None


def _classpath():
    global _cp
    if _cp is None:
        cand = [JARS]
        d = os.path.dirname(JARS)
        for f in sorted(os.listdir(d)):
            if f.endswith(".jar") and f != os.path.basename(JARS):
                cand.append(os.path.join(d, f))
        _cp = ":".join(cand)
    return _cp


def main(prop, fn):
    ctx = Ctx(prop)
    try:
        fn(ctx)
    except Violation as v:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, "%s-%s.txt" % (prop, ctx.seed))
        with open(rp, "w") as f:
            f.write("%s\n%s\n" % (v.what, v.detail))
        ctx.evidence(1)
        print(v.what)
        print(v.detail[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
        return 1
    except CheckError as x:
        print("CHECK ERROR %s: %s" % (prop, x), file=sys.stderr)
        return 2
    ctx.evidence(0)
    print("ok %s (%s, seed %d): %d states, %d transitions, %d events of the implementation validated, %.1f s"
          % (prop, ctx.tier, ctx.seed, ctx.states, ctx.transitions, ctx.validated, time.time() - ctx.t0))
    return 0


def parallel(fns):
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return [f.result() for f in [ex.submit(f) for f in fns]]

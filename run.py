#!/usr/bin/env python3
"""Runs the check of one property: run.py <property> [quick|thorough].

 1. TLC checks the design specification (exhaustively, small constants)
 2. TLC derives inputs / operation sequences from the specification
 3. the Go driver, built against /repo's working tree, executes them (and
    sessions drawn from VERIF_SEED) on the real code and records traces
 4. TLC validates every recorded trace against the specification

Exit 0: accepted; 1: VIOLATION; 2: the check itself failed.
"""
import concurrent.futures, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TLA = "/opt/veriftools/tla"
CP = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"

sys.path.insert(0, VERIF)


DRIVE = int(os.environ.get("VERIF_DRIVE_TIMEOUT", "400"))  # s


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
        self.inputs = os.path.join(self.dir, "in")
        os.makedirs(self.inputs)
        self.stats = dict(design_states=0, design_transitions=0, trace_states=0, trace_transitions=0,
                          sessions=0, events=0)
        self.samples, self.notes, self.design = [], [], []
        self.unfinished = None

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, workers=8, timeout=800, mem="3g", extra=()):
        meta = tempfile.mkdtemp(prefix="meta", dir=self.dir)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-Dfile.encoding=UTF-8",
               # TLC's queue spills to disk beyond this many states, and keeps one byte only of each character then
               "-Dtlc2.tool.queue.DiskStateQueue.BufSize=1000000", "-cp", CP, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-config", cfg, *extra,
               os.path.join(SPEC, module + ".tla")]
        env = dict(os.environ, JAVA_TOOL_OPTIONS="-Djava.io.tmpdir=" + meta)
        try:
            p = subprocess.run(cmd, cwd=meta, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        text = p.stdout.decode("utf-8", "replace")
        shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r"^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", text, re.M)
        gen, dist = (int(m.group(i).replace(",", "")) for i in (1, 2)) if m else (0, 0)
        return p.returncode, text, gen, dist

    def check_design(self, module, cfg, workers=8, timeout=800, mem="8g"):
        """the specification itself satisfies its properties"""
        rc, text, gen, dist = self.tlc(module, os.path.join(SPEC, cfg + ".cfg"), workers, timeout, mem)
        if rc != 0:
            raise CheckError("design check %s/%s failed (TLC exit %d):\n%s" % (module, cfg, rc, text[-3000:]))
        self.stats["design_states"] += dist
        self.stats["design_transitions"] += gen
        self.design.append({"module": module, "config": cfg, "distinct_states": dist, "transitions": gen})

    def check_design_fails(self, module, cfg, workers=4, timeout=300):
        """the same design with its safeguard removed must be rejected: the invariants have teeth"""
        rc, text, gen, dist = self.tlc(module, os.path.join(SPEC, cfg + ".cfg"), workers, timeout)
        if rc not in (12, 13):
            raise CheckError("%s/%s should be rejected (TLC exit %d):\n%s" % (module, cfg, rc, text[-2000:]))
        self.notes.append("%s without its safeguard (%s) is rejected after %d states" % (module, cfg, dist))

    def cfg(self, name, constants, body):
        path = os.path.join(self.dir, name + ".cfg")
        with open(path, "w") as f:
            if constants:
                f.write("CONSTANTS\n")
                for k, v in constants.items():
                    f.write("  %s = %s\n" % (k, tla(v)))
            f.write(body + "\n")
        return path

    def generate(self, module, out, constants=None, spec="INIT Init\nNEXT Next", timeout=600):
        """TLC writes the inputs for the driver into in/<out>"""
        c = dict(constants or {}, OutFile=os.path.join(self.inputs, out))
        cfg = self.cfg("gen_" + module + "_" + out, c, spec + "\nCHECK_DEADLOCK FALSE")
        rc, text, gen, dist = self.tlc(module, cfg, timeout=timeout)
        if rc != 0 or not os.path.exists(c["OutFile"]):
            raise CheckError("generation %s failed:\n%s" % (module, text[-3000:]))
        self.stats["design_states"] += dist
        self.stats["design_transitions"] += gen

    def behaviours(self, module, out, constants=None, timeout=600):
        """TLC prints every complete behaviour of a generator spec as JSON (lines starting with BEHAVIOUR)"""
        cfg = self.cfg("beh_" + module + "_" + out, constants, "INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE")
        rc, text, gen, dist = self.tlc(module, cfg, timeout=timeout, mem="6g")
        if rc != 0:
            raise CheckError("generation %s failed:\n%s" % (module, text[-3000:]))
        n = 0
        with open(os.path.join(self.inputs, out), "w") as f:
            for line in text.splitlines():
                if line.startswith('"BEHAVIOUR '):
                    f.write(json.loads(line)[len("BEHAVIOUR "):] + "\n")
                    n += 1
        if n == 0:
            raise CheckError("no behaviours generated by %s\n%s" % (module, text[-2000:]))
        self.stats["design_states"] += dist
        self.stats["design_transitions"] += gen
        self.notes.append("%d behaviours generated by %s" % (n, module))
        return n

    # ----------------------------------------------------------------- Go
    def build(self, race=False):
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        exe = os.path.join(BUILD, "bin", "race.test" if race else "drive.test")
        env = dict(os.environ, GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off")
        if race:
            env["CGO_ENABLED"] = "1"
        cmd = ["go", "test", "-c"] + (["-race"] if race else []) + ["-o", exe, "."]
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise CheckError("the driver does not build:\n" + p.stdout.decode("utf-8", "replace")[-3000:])
        return exe

    def drive(self, mode, race=False, timeout=DRIVE, name=None, env=None):
        """executes mode on the real code; returns the directory of recorded traces"""
        exe = self.build(race)
        out = os.path.join(self.dir, "out-" + (name or mode))
        os.makedirs(out, exist_ok=True)
        work = os.path.join(self.dir, "work-" + (name or mode))
        os.makedirs(work, exist_ok=True)
        e = dict(os.environ, VERIF_MODE=mode, VERIF_PROP=self.prop, VERIF_IN=self.inputs, VERIF_OUT=out,
                 VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, TMPDIR=work, GOTRACEBACK="all",
                 GORACE="halt_on_error=0 exitcode=66 history_size=5", **(env or {}))
        log = os.path.join(self.dir, "log-" + (name or mode))
        with open(log, "wb") as lf:
            p = subprocess.Popen([exe, "-test.run", "^TestDrive$", "-test.timeout", "0"], cwd=work, env=e, stdout=lf,
                                 stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                # what is every goroutine doing?
                os.kill(p.pid, signal.SIGQUIT)
                try:
                    p.wait(20)
                except subprocess.TimeoutExpired:
                    pass
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                text = open(log, "rb").read().decode("utf-8", "replace")
                why = stuck_in_code(text)
                if why:
                    raise Violation(why, {"mode": mode, "log": text[-20000:]})
                return self.salvage(out, "driver %s timed out:\n%s" % (mode, text[-6000:]))
        text = open(log, "rb").read().decode("utf-8", "replace")
        if rc != 0:
            why = crash_in_code(text)
            if why:
                raise Violation(why, {"mode": mode, "log": text[-20000:]})
            return self.salvage(out, "driver %s failed (exit %d):\n%s" % (mode, rc, text[-3000:]))
        return out

    def salvage(self, out, why):
        """the driver did not finish: what it recorded still counts, but nothing is accepted"""
        self.unfinished = CheckError(why)
        n = 0
        for path in glob.glob(os.path.join(out, "*.ndjson")):
            lines = open(path, "rb").read().split(b"\n")[:-1]
            n += len(lines)
            if lines:
                with open(path, "wb") as f:
                    f.write(b"\n".join(lines) + b"\n")
            else:
                os.unlink(path)
        if n == 0:
            raise self.unfinished
        return out

    # --------------------------------------------------------- validation
    def validate(self, module, files, constants=None, invariants=("Accepted",), workers=2, jobs=4, timeout=800, mem="3g", min_sessions=1):
        files = sorted(files)
        if not files:
            raise CheckError("no traces recorded for %s" % module)

        def one(path):
            c = dict(constants or {}, PROP=self.prop, TraceFile=path)
            cfg = self.cfg("trace_" + os.path.basename(path), c,
                           "SPECIFICATION Spec\n" + "".join("INVARIANT %s\n" % i for i in invariants) + "CHECK_DEADLOCK FALSE")
            return path, self.tlc(module, cfg, workers, timeout, mem)

        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            results = list(ex.map(one, files))
        for path, (rc, text, gen, dist) in results:
            n = sum(1 for _ in open(path, "rb"))
            self.stats["sessions"] += n
            self.stats["trace_states"] += dist
            self.stats["trace_transitions"] += gen
            if rc == 12:
                raise Violation("TLC rejects a trace recorded in %s" % os.path.basename(path),
                                {"module": module, "rejection": rejection(text), "tlc": text[-6000:], "trace": session_of(path, text)})
            if rc != 0:
                raise CheckError("TLC failed on %s (exit %d):\n%s" % (path, rc, text[-3000:]))
            if dist < min_sessions:
                raise CheckError("TLC explored only %d states of %s" % (dist, path))
        if self.unfinished:
            raise self.unfinished
        for path in files[:3]:
            with open(path, "rb") as f:
                line = f.readline()
                line = f.readline() or line
                self.samples.append(line[:1500].decode("utf-8", "replace"))
        if self.stats["sessions"] == 0:
            raise CheckError("nothing was validated")

    def need(self, what, n, least):
        """vacuity guard"""
        self.notes.append("%s: %d" % (what, n))
        if n < least:
            raise CheckError("vacuous: only %d %s (at least %d expected)" % (n, what, least))


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (set, list, tuple)):
        return "{" + ", ".join(tla(x) for x in v) + "}"
    return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'


def crash_in_code(text):
    """a crash or data race of the driver counts against the code only if the code under test is on the stack"""
    if "WARNING: DATA RACE" in text:
        for block in text.split("WARNING: DATA RACE")[1:]:
            # one of the two racing accesses is made by gofre's own code (its top non-runtime frame)
            block = block.split("==================")[0]
            for part in re.split(r"\n\n", block):
                head = part.strip().splitlines()
                if not head or not re.match(r"(Read|Write|Previous (read|write)|Previous atomic|Atomic)", head[0]):
                    continue
                frames = [l.strip() for l in head[1:] if l.startswith("  ") and not l.startswith("      ")]
                for fr in frames:
                    if fr.startswith("runtime.") or fr.startswith("internal/") or fr.startswith("sync"):
                        continue
                    if fr.startswith("github.com/ixtendio/gofre"):
                        return "data race in " + fr
                    break
        return None
    m = re.search(r"^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*)$", text, re.M)
    if m:
        tail = text[m.start():]
        first = re.search(r"^goroutine .*?(?=^goroutine |\Z)", tail, re.M | re.S)
        stack = first.group(0) if first else tail
        for l in stack.splitlines():
            if l.startswith("github.com/ixtendio/gofre"):
                return m.group(1) + " in " + l
            if l.startswith("verif/harness"):
                break
    return None


def stuck_in_code(text):
    """a driver that does not end counts against the code only if a goroutine is stuck in the code under test itself"""
    for g in re.split(r"\n(?=goroutine \d+)", text)[1:]:
        lines = g.splitlines()
        for l in lines[1:]:
            if not l or l[0] in " \t" or l.startswith(("runtime.", "internal/", "sync.", "sync/", "regexp")):
                continue
            if l.startswith("github.com/ixtendio/gofre"):
                return "never ends: %s %s" % (lines[0], l)
            break
    return None


def rejection(text):
    for line in text.splitlines():
        if line.startswith('"{'):
            try:
                return json.loads(json.loads(line))
            except ValueError:
                return line
        if line.startswith('"REJECT'):
            return line
    return None


def session_of(path, text):
    m = re.search(r"\bsid = (\d+)$", text, re.M)
    if not m:
        return None
    lines = open(path, "rb").read().decode("utf-8", "replace").splitlines()
    i = int(m.group(1))
    return {"file": os.path.basename(path), "session": i, "header": lines[0][:4000], "line": (lines[i] if i < len(lines) else lines[-1])[:20000]}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import checks
    if prop not in checks.CHECKS:
        print("no check for", prop)
        return 2
    t0 = time.time()
    r = Run(prop, tier, seed)
    code, violations = 0, 0
    try:
        checks.CHECKS[prop](r)
        if r.unfinished:
            raise r.unfinished
    except Violation as v:
        violations = 1
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        path = os.path.join(BUILD, "replay", "%s-%s-seed%d.json" % (prop, tier, seed))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "what": v.what, "detail": v.detail,
                       "again": "VERIF_SEED=%d python3 run.py %s %s" % (seed, prop, tier)}, f, indent=1, ensure_ascii=False)
        rej = v.detail.get("rejection") if isinstance(v.detail, dict) else None
        print("rejected:", v.what, json.dumps(rej, ensure_ascii=False)[:3000] if rej else "")
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    except CheckError as e:
        print("CHECK ERROR:", e)
        code = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(r.dir, ignore_errors=True)
    s = r.stats
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if code != 2:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
                       "coverage": {"states": s["design_states"] + s["trace_states"],
                                    "transitions": s["design_transitions"] + s["trace_transitions"],
                                    "traces_validated_against_impl": s["sessions"],
                                    "samples": r.samples or ["(no sample: the run ended early)"],
                                    "design_checks": r.design, "trace_states": s["trace_states"], "notes": r.notes},
                       "assumptions": checks.ASSUMPTIONS.get(prop, checks.ASSUMPTIONS["*"]),
                       "wall_s": round(time.time() - t0, 2), "violations": violations}, f, indent=1, ensure_ascii=False)
    print("%s %s seed=%d: %s in %.1f s; design %d states, %d traces validated (%d states)" % (
        prop, tier, seed, {0: "held", 1: "VIOLATED", 2: "error"}[code], time.time() - t0, s["design_states"], s["sessions"], s["trace_states"]))
    return code


if __name__ == "__main__":
    sys.exit(main())

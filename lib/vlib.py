"""Building, running and judging: the parts shared by all checks."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
JARS = ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
START = time.time()


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def log(*a):
    print("[%6.1fs]" % (time.time() - START), *a, flush=True)


def tmpdir():
    d = os.path.join(BUILD, "run")
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(dir=d)


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.dir = tmpdir()
        self.states = 0
        self.distinct = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.parts = []
        self.evidence = {}
        self.assumptions = []

    def path(self, name):
        return os.path.join(self.dir, name)

    def done(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def violation(self, what, data):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s.json" % self.prop)
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "data": data}, f, indent=1)
        raise Violation(what, os.path.relpath(p, VERIF))


# -- the code under test -----------------------------------------------------
def cargo_env(extra=None):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    e["RUSTFLAGS"] = "-Awarnings"
    e.update(extra or {})
    return e


def touch_repo_guard(target):
    """cargo trusts modification times; make it look at contents instead"""
    import hashlib
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read())
    stamp = os.path.join(target, "repo.stamp")
    new = h.hexdigest()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old is not None and old != new:
        for d in ("debug", "release"):
            fp = os.path.join(target, d, ".fingerprint")
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if x.startswith(("deser", "vh")):
                        shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    os.makedirs(target, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(new)


def build(ctx, bin, features=(), gen=None, profile="dev"):
    """builds a harness binary from the current tree of /repo"""
    target = os.path.join(BUILD, "target" + ("-s" if "speedups" in features else ""))
    touch_repo_guard(target)
    h = os.path.join(VERIF, "harness")
    env = cargo_env({"CARGO_TARGET_DIR": target, "VH_GEN": gen or ctx.dir})
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(h, "Cargo.toml"), "--bin", bin]
    if features:
        cmd += ["--features", ",".join(features)]
    t = time.time()
    r = subprocess.run(cmd, env=env, cwd=h, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        # is it the code under test that does not build?
        q = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--workspace"],
                           env=cargo_env({"CARGO_TARGET_DIR": os.path.join(BUILD, "target-repo")}), cwd=REPO,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if q.returncode != 0:
            raise ToolError("the repository does not build:\n" + q.stdout[-3000:])
        errs = [x for x in r.stdout.splitlines() if x.startswith("error")]
        if any("rustc" in x and "signal" in x for x in r.stdout.splitlines()) or "No space left" in r.stdout:
            raise ToolError("compiler trouble:\n" + r.stdout[-3000:])
        ctx.violation("code using the public interface does not compile any more: " + "; ".join(errs[:3]),
                      {"compiler": r.stdout[-6000:]})
    log("built %s%s in %.1fs" % (bin, list(features) or "", time.time() - t))
    out = ctx.path(bin + "-" + "-".join(features) + "-" + str(time.time_ns()))
    shutil.copy(os.path.join(target, "debug", bin), out)
    return out


def run_cases(ctx, exe, cases, name, timeout=120, env=None):
    """runs all cases; a case that kills or hangs the process becomes a trace
    of its own"""
    inp, out = ctx.path(name + ".cases"), ctx.path(name + ".traces")
    with open(inp, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    if os.path.exists(out):
        os.unlink(out)
    skip, flush, crashes = 0, [], 0
    e = dict(os.environ, RUST_BACKTRACE="0")
    e.update(env or {})
    while True:
        try:
            r = subprocess.run([exe, inp, out, str(skip)] + flush, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout if not flush else (30 if timeout <= 120 else timeout // 2), env=e)
            rc, err = r.returncode, r.stderr.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            rc, err = -999, "timeout"
        if rc == 0:
            break
        if rc == 7:
            raise ToolError("harness: " + err[-500:])
        n = complete_lines(out)
        if not flush:
            flush = ["flush"]      # once more, to see which case it is
            skip = n
            continue
        # case number n killed or hung the process
        crashes += 1
        with open(out, "a") as f:
            c = cases[n]
            f.write(json.dumps({"id": c.get("id", 0), "crash": "process ended with %s %s" % (rc, err[-200:])}) + "\n")
        skip = n + 1
        if crashes >= 5:
            cut = cases[:skip]
            cases[:] = cut
            break
    n = complete_lines(out)
    if n != len(cases):
        raise ToolError("harness wrote %d of %d traces" % (n, len(cases)))
    return out


def complete_lines(path):
    if not os.path.exists(path):
        return 0
    data = open(path, "rb").read()
    n = data.count(b"\n")
    if data and not data.endswith(b"\n"):
        with open(path, "wb") as f:
            f.write(data[:data.rfind(b"\n") + 1])
    return n


# -- TLC -----------------------------------------------------------------------
def tlc(ctx, module, cfg, env, workers=8, heap="6g", timeout=840, extra=(), coverage=False, deadlock_ok=True):
    meta = tempfile.mkdtemp(dir=ctx.dir)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-Dtlc2.tool.impl.Tool.cdot=true", "-cp", tlc_cp(), "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-lncheck", "final"]
    if coverage:
        cmd += ["-coverage", "60"]
    cmd += list(extra) + ["-config", cfg, module + ".tla"]
    e = dict(os.environ)
    e.update(env)
    e.pop("JAVA_TOOL_OPTIONS", None)
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        ctx.states += int(m.group(1))
        ctx.distinct += int(m.group(2))
    res = {"rc": r.returncode, "out": out, "states": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0,
           "time": time.time() - t}
    log("TLC %s: rc %d, %d states, %d distinct, %.1fs" % (module, r.returncode, res["states"], res["distinct"], res["time"]))
    if r.returncode not in (0, 12):
        raise ToolError("TLC failed on %s (%d):\n%s" % (module, r.returncode, out[:200] + "\n...\n" + out[-2500:]))
    if coverage:
        res["cov"] = {a: int(n) for a, n in re.findall(r"^<(\w+) line.*>: \d+:(\d+)$", out, re.M)}
    return res


def model(ctx, module, consts, invariants=("Inv",), properties=(), env=None, **kw):
    """TLC checks a closed model; a violation there is a mistake in the
    specification, not in the code"""
    cfg = ctx.path(module + "-%d.cfg" % time.time_ns())
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
        for i in invariants:
            f.write("INVARIANT %s\n" % i)
        for i in properties:
            f.write("PROPERTY %s\n" % i)
        f.write("CONSTANTS\n")
        for k, v in consts.items():
            f.write("  %s %s %s\n" % ((k, "<-", v[2:]) if isinstance(v, str) and v.startswith("<-") else (k, "=", tla(v))))
    r = tlc(ctx, module, cfg, env or {}, **kw)
    if r["rc"] != 0:
        raise ToolError("the model %s violates its own properties:\n%s" % (module, r["out"][-3000:]))
    ctx.parts.append({"spec": module, "what": "model", "constants": {k: str(v) for k, v in consts.items()},
                      "states": r["states"], "distinct": r["distinct"]})
    return r


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (set, frozenset, list, tuple, range)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    if isinstance(v, str):
        return '"%s"' % v
    return str(v)


def enumerate_cases(ctx, module, consts, name, **kw):
    """all behaviours of a closed model as cases"""
    out = ctx.path(name + ".enum")
    if os.path.exists(out):
        os.unlink(out)
    model(ctx, module, consts, env={"VH_OUT": out}, **kw)
    with open(out) as f:
        cases = [json.loads(json.loads(x)) for x in sorted(set(f))]
    for i, c in enumerate(cases):
        c["id"] = i + 1
    return cases


def tlc_cp():
    return ":".join(JARS)


def validate(ctx, module, traces, env, cfg="Trace.cfg", what="trace", cases=None, chunk=8000, **kw):
    """all recorded traces have to be behaviours of the trace specification"""
    n = complete_lines(traces)
    if n == 0:
        raise ToolError("no traces")
    files = [(traces, 0)]
    if chunk and n > chunk:
        files = []
        with open(traces) as f:
            k = 0
            while True:
                lines = [x for _, x in zip(range(chunk), f)]
                if not lines:
                    break
                p = traces + ".%d" % k
                open(p, "w").writelines(lines)
                files.append((p, k))
                k += len(lines)
    res = None
    for p, off in files:
        res = tlc(ctx, module, cfg, dict(env, VH_TRACES=p), **kw)
        if res["rc"] != 0:
            m = re.search(r'<<"BAD", (\d+), (\d+), "([^"]*)"', res["out"])
            if m:
                t, l, why = int(m.group(1)), int(m.group(2)), m.group(3)
            else:
                m = re.search(r"/\\ trc = (\d+)", res["out"])
                if not m:
                    raise ToolError("TLC rejected a trace but it cannot be located:\n" + res["out"][-3000:])
                t, l, why = int(m.group(1)), 0, "rejected"
                m = re.search(r'/\\ bad = "([^"]*)"', res["out"])
                if m:
                    why = m.group(1) or why
            line = open(p).read().splitlines()[t - 1]
            data = {"module": module, "step": l, "why": why, "trace": json.loads(line)}
            if cases:
                data["case"] = cases[off + t - 1]
            ctx.violation("%s %d step %d: %s" % (what, off + t, l, why), data)
    ctx.traces += n
    ctx.parts.append({"spec": module, "what": what, "traces": n})
    with open(traces) as f:
        ctx.samples += [x.strip()[:300] for _, x in zip(range(2), f)]
    return res


# -- verdict ---------------------------------------------------------------------
def known_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for x in open(p):
            x = x.strip()
            if x and not x.startswith(("#", "fixed:")):
                out.append(x)
    return out


def main(prop, fn):
    ctx = Ctx(prop)
    rc = 2
    try:
        fn(ctx)
        write_evidence(ctx)
        log("%s holds: %d traces, %d states" % (prop, ctx.traces, ctx.states))
        rc = 0
    except Violation as v:
        write_evidence(ctx, v)
        log(v.what)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay), flush=True)
        rc = 1
    except ToolError as e:
        print("ERROR", e, flush=True)
    finally:
        ctx.done()
    sys.exit(rc)


def write_evidence(ctx, v=None):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = evidence(ctx, v)
    with open(os.path.join(d, ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def evidence(ctx, v):
    cov = {
        "states": ctx.distinct,
        "transitions": ctx.states,
        "traces_validated_against_impl": ctx.traces,
        "samples": ctx.samples[:12],
        "runs": ctx.parts,
    }
    cov.update(ctx.evidence)
    return {
        "property": ctx.prop,
        "tier": "thorough" if THOROUGH else "quick",
        "seed": SEED,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": ctx.assumptions + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - START, 2),
        "violations": 1 if v else 0,
    }


COMMON_ASSUMPTIONS = [
    "the Rust compiler, the standard library and TLC are correct",
    "the harness records what the public interface returned (canonical form in harness/src/canon.rs)",
]

"""Shared machinery of the checks: building, running TLC, reporting."""
import json, os, re, resource, shutil, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")
NCPU = min(8, os.cpu_count() or 8)
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class Result:
    """What a check found."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.violations = []      # (what, replay text)
        self.unfinished = 0       # records the model checker did not finish in time
        self.known = []           # text of known findings that still fail
        self.coverage = {}
        self.level = "model_checking"
        self.assumptions = []
        self.dir = os.path.join(WORK, prop + "-" + tier)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def violation(self, what, text):
        self.violations.append((what, text))


def log(*a):
    print("[check]", *a, flush=True)


def run_check(prop, tier, fn):
    t0 = time.time()
    res = Result(prop, tier)
    try:
        fn(res)
    except ToolError as e:
        print("TOOL ERROR:", e, flush=True)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    ev = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": SEED,
        "level": res.level,
        "coverage": res.coverage,
        "assumptions": res.assumptions,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(res.violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in res.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k), flush=True)
    if res.violations:
        rdir = os.path.join(WORK, "replay")
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, prop + ".txt")
        with open(p, "w") as f:
            for what, text in res.violations[:20]:
                f.write("== %s\n%s\n\n" % (what, text))
        for what, _ in res.violations[:5]:
            log("violated:", what)
        print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
        sys.exit(1)
    log("%s held on everything explored (%.0f s)" % (prop, time.time() - t0))
    sys.exit(0)


# ---------------------------------------------------------------- building

def cargo(crate, profile="release", hooks=False, package=None, features=None):
    """Build a harness crate against /repo's working tree; return the bin dir.

    If the whole crate does not build (the interface of some building block is
    not what it was) and `features` are given, build only those parts."""
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env.pop("RUSTC_WRAPPER", None)
    env["CARGO_INCREMENTAL"] = "0"
    env["RUSTFLAGS"] = "-Awarnings" + (" --cfg regalloc2_verif" if hooks else "")
    tdir = os.path.join(WORK, "target-" + os.path.basename(crate))
    env["CARGO_TARGET_DIR"] = tdir
    cmd = ["cargo", "build", "--offline", "--quiet", "--profile", profile]
    if package:
        cmd += ["--package", package]

    def build(extra):
        return subprocess.run(cmd + extra, cwd=os.path.join(VERIF, crate), env=env, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True, timeout=600)

    r = build([])
    if r.returncode != 0 and features:
        r = build(["--no-default-features", "--features", ",".join(features)])
    if r.returncode != 0:
        raise ToolError("building %s failed\n%s" % (crate, r.stdout[-4000:]))
    return os.path.join(tdir, profile)


# --------------------------------------------------------------------- TLC

def tlc(module, cfg, meta, env=None, timeout=600, heap="2g", args=(), workers=1):
    """Run TLC; returns dict(out, ok, states, distinct, violated)."""
    e = dict(os.environ)
    e.update(env or {})
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    gc = ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
    cmd = ["java", *gc, "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *args, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace")
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"")
        out = out.decode(errors="replace") if isinstance(out, bytes) else out
        rc = -1
    shutil.rmtree(meta, ignore_errors=True)
    if "Parsing or semantic analysis failed" in out or "Could not find or load main class" in out \
            or "java.lang.OutOfMemoryError" in out or "Could not reserve enough space" in out:
        raise ToolError("TLC on %s: %s" % (module, out[-1500:]))
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    st, ds = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return {"out": out, "rc": rc, "ok": rc == 0, "states": st, "distinct": ds,
            "violated": "is violated" in out or "violated." in out, "timeout": rc == -1}


def tlc_lines(module, cfg, meta, env, path, prefix, timeout, workers=2, heap="4g"):
    """Run TLC and keep what it prints after PREFIX; returns (lines, states, finished?, rest)."""
    e = dict(os.environ)
    e.update(env)
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cmd = ["timeout", str(timeout), "java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, module + ".tla"]
    n, rest = 0, []
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace")
    with open(path, "w") as f:
        for l in p.stdout:
            if l.startswith('"' + prefix) and l.endswith('"\n'):
                f.write(l[1:-2] + "\n")
                n += 1
            else:
                rest.append(l)
                del rest[:-200]
    rc = p.wait()
    shutil.rmtree(meta, ignore_errors=True)
    out = "".join(rest)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    return n, int(m[-1][1].replace(",", "")) if m else 0, rc == 0 and "No error has been found" in out, out


def parallel(jobs, n=NCPU):
    """Run thunks in parallel, return their results in order."""
    with ThreadPoolExecutor(max_workers=n) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]


def limit_mem(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(cmd, timeout, gb=4, **kw):
    """Run a harness binary; returns (returncode, output); -1 on timeout."""
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout, preexec_fn=limit_mem(gb), **kw)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        return -1, o.decode(errors="replace") if isinstance(o, bytes) else o


def findings(prop):
    """Open entries of the known-findings file for a property: id -> text."""
    d = {}
    p = os.path.join(VERIF, "known-findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"open: property=(\S+) case=(\S+) code=(\S+) (.*)", line.strip())
        if m and m.group(1) == prop:
            d[(m.group(2), m.group(3))] = m.group(4)
    return d

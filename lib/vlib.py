"""Shared machinery: running TLC, running drivers, judging traces, evidence."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
DRIVERS = os.path.join(ROOT, "drivers")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar"


def _classpath():
    d = os.path.dirname(JAR)
    jars = [JAR] + sorted(
        os.path.join(d, f) for f in os.listdir(d)
        if f.endswith(".jar") and os.path.join(d, f) != JAR)
    return ":".join(jars)


class MachineryError(Exception):
    pass


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = None
        for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states", out):
            pass
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = "Model checking completed. No error has been found." in out
        m = re.search(r"Error: (?:Invariant|Action property|Temporal properties?|Property) ?(\S*) ?(?:is|was|were) violated", out)
        self.violated = m.group(1) if m else None


def tlc(module, cfg, scratch, env=None, workers=1, timeout=600, extra=(), mem="3g", consts=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cfgpath = os.path.join(SPEC, cfg)
    if consts:
        # override constants:  name -> "= value" or "<- definition"
        text = open(cfgpath).read()
        for k, v in consts.items():
            text, n = re.subn(rf"(?m)^(\s*){re.escape(k)}\s*(=|<-).*$", lambda m: f"{m.group(1)}{k} {v}", text)
            if n != 1:
                raise MachineryError(f"constant {k} not in {cfg}")
        cfgpath = os.path.join(meta, "override.cfg")
        with open(cfgpath, "w") as f:
            f.write(text)
    cmd = ["java", "-Djava.io.tmpdir=" + scratch, "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC"]
    cmd += ["-cp", _classpath(), "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
            "-workers", str(workers), "-config", cfgpath]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as ex:
        raise MachineryError(f"TLC timed out after {timeout}s on {module}/{cfg}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(out, rc, time.time() - t)


FAIL_RE = re.compile(r'"FAIL (\d+) \{(.*?)\}"')


def judge(module, trace_file, scratch, cfg=None, timeout=600, env=None, mem="3g"):
    """Validate a recorded trace against a trace specification.

    Returns (n_lines, {line_number: set(clauses)}, TLCResult)."""
    with open(trace_file) as f:
        n = sum(1 for _ in f)
    if n == 0:
        raise MachineryError("empty trace " + trace_file)
    r = tlc(module, cfg or "Trace.cfg", scratch, env=dict(env or {}, TRACE_FILE=trace_file),
            workers=1, timeout=timeout, mem=mem)
    if not r.ok or r.distinct != n + 1:
        ls = r.out.splitlines()
        k = next((i for i, x in enumerate(ls) if x.startswith("Error:")), len(ls))
        tail = "\n".join(ls[k:k + 12] + ls[-25:])
        raise MachineryError(f"trace spec {module} did not consume the trace "
                             f"({r.distinct} states for {n} lines):\n{tail}")
    fails = {}
    for m in FAIL_RE.finditer(r.out):
        # TLC prints the string with escaped quotes
        cl = set(re.findall(r'[A-Za-z0-9_.\-]+', m.group(2)))
        fails.setdefault(int(m.group(1)), set()).update(cl)
    return n, fails, r


def gen_cases(module, cfg, out, scratch, consts=None, timeout=300):
    """Behaviours/cases enumerated by TLC (lines printed as CASE <json>), written to a file."""
    r = tlc(module, cfg, scratch, workers=1, timeout=timeout, consts=consts)
    if not r.ok:
        raise MachineryError(f"generator {module}/{cfg}:\n" + "\n".join(r.out.splitlines()[-30:]))
    cases = [json.loads(json.loads(x)[5:]) for x in r.out.splitlines() if x.startswith('"CASE ')]
    if not cases:
        raise MachineryError(f"generator {module}/{cfg} produced nothing")
    with open(out, "w") as f:
        json.dump(cases, f)
    return len(cases), r


def code_env(scratch, hashseed="0"):
    e = dict(os.environ)
    for k in ("PYTHONPATH", "PYTHONHOME"):
        e.pop(k, None)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
             MPLBACKEND="Agg", PYTHONHASHSEED=str(hashseed), LC_ALL="C.UTF-8",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR=os.path.join(scratch, "mpl"),
             VERIF_REPO=REPO, PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", TMPDIR=scratch)
    return e


def run_driver(name, out, scratch, seed, tier, prop, shard=0, nshards=1, only=None, timeout=600,
               hashseed="0", extra=None):
    """Run drivers/<name>.py in a fresh interpreter on /repo's working tree."""
    args = [PY, "-X", "faulthandler", os.path.join(DRIVERS, name + ".py"), "--out", out, "--seed", str(seed),
            "--tier", tier, "--prop", prop, "--shard", str(shard), "--nshards", str(nshards)]
    if only is not None:
        args += ["--only", str(only)]
    for k, v in (extra or {}).items():
        args += ["--opt", f"{k}={v}"]
    p = subprocess.Popen(args, cwd=scratch, env=code_env(scratch, hashseed), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        return "timeout", o
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
    return p.returncode, o

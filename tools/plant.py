#!/usr/bin/env python3
"""plant.py FILE.py [ID ...]   build seeded bugs from the BUGS list of FILE: apply each to a scratch copy of /repo, run the
stable tests and the demonstration with and without it, and write /verif/seeded/<id>/ when all of that is as required.
plant.py --check [ID ...]   run the property's quick check (or --prop Cxx) against a scratch copy with each seeded bug."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "0950667"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, HOME="/root", PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", LC_ALL="C.UTF-8",
           PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
DEMO_SH = """#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is not; run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 280 /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)


def tests(repo):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    rep = tempfile.mkdtemp()
    try:
        sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o",
            "junit_family=xunit2", f"--junitxml={rep}/junit.xml"], repo, timeout=600)
        sh(["/usr/bin/python3", "/opt/vp/results.py", f"{rep}/out.json", f"junit:{rep}/junit.xml"], repo)
        r = json.load(open(f"{rep}/out.json"))
        return sorted(stable - set(r["passed"]))
    finally:
        shutil.rmtree(rep)


def demo(d, repo):
    return sh(["bash", os.path.join(d, "demo.sh")], repo, timeout=300)


def one(bug):
    top = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(top, "repo")
        sh(["cp", "-a", "/repo", repo], "/")
        sh(["git", "checkout", "-q", "--", "."], repo)
        d = os.path.join(top, "seed")
        os.makedirs(d)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(d, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
        clean = demo(d, repo)
        if clean.returncode != 0:
            return bug["id"], "DEMO FAILS CLEAN\n" + clean.stdout[-800:] + clean.stderr[-800:]
        for path, old, new in bug["edits"]:
            p = os.path.join(repo, path)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                return bug["id"], f"EDIT MATCHES {s.count(old)} TIMES: {old!r}"
            open(p, "w", newline="").write(s.replace(old, new))
        patch = sh(["git", "diff", "-U3"], repo).stdout
        orig = notorig = 0
        cur = None
        for line in patch.splitlines():
            if line.startswith("--- a/"):
                cur = set(sh(["git", "show", f"{BASE}:{line[6:].strip()}"], repo).stdout.splitlines())
            elif line.startswith("-") and not line.startswith("---"):
                if line[1:].rstrip("\r") in cur or line[1:] in cur:
                    orig += 1
                else:
                    notorig += 1
        dirty = demo(d, repo)
        if dirty.returncode == 0:
            return bug["id"], "DEMO PASSES WITH THE BUG"
        bad = tests(repo)
        if bad:
            return bug["id"], f"TESTS FAIL: {bad[:5]}"
        out = os.path.join(ROOT, "seeded", bug["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w", newline="").write(patch)
        shutil.copy(os.path.join(d, "demo.sh"), out)
        shutil.copy(os.path.join(d, "demo.py"), out)
        json.dump({k: bug[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        return bug["id"], f"ok (original lines {orig}, other {notorig}) {dirty.stderr.strip().splitlines()[-1:] or dirty.stdout[-200:]}"
    finally:
        shutil.rmtree(top)


def check(bid, prop=None):
    top = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(top, "repo")
        sh(["cp", "-a", "/repo", repo], "/")
        r = sh(["git", "apply", os.path.join(ROOT, "seeded", bid, "patch.diff")], repo)
        if r.returncode:
            return bid, "DOES NOT APPLY " + r.stderr
        prop = prop or json.load(open(os.path.join(ROOT, "seeded", bid, "meta.json")))["property"]
        env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_OUT=os.path.join(top, "out"))
        r = subprocess.run(["python3", os.path.join(ROOT, "run.py"), prop, "--no-mc"], cwd=ROOT, env=env, capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or "violat" in l.lower() or "clause" in l.lower()]
        return bid, f"{prop} rc={r.returncode} {'CAUGHT' if r.returncode == 1 else 'MISSED'} {lines[:3]} {r.stderr[-300:] if r.returncode not in (0, 1) else ''}"
    finally:
        shutil.rmtree(top)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--check":
        prop = None
        if "--prop" in a:
            i = a.index("--prop"); prop = a[i + 1]; del a[i:i + 2]
        ids = a[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
        with ThreadPoolExecutor(2) as ex:
            for bid, res in ex.map(lambda b: check(b, prop), ids):
                print(bid, "|", res, flush=True)
    else:
        spec = importlib.util.spec_from_file_location("bugs", a[0])
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        bugs = [b for b in m.BUGS if not a[1:] or b["id"] in a[1:]]
        with ThreadPoolExecutor(6) as ex:
            for bid, res in ex.map(one, bugs):
                print(bid, "|", res, flush=True)

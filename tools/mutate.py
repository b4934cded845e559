#!/usr/bin/env python3
"""mutate.py list|run [--files SUBSTR] [--jobs N] [--log FILE] [--sample K]
A sweep of small mechanical changes over /repo/eckity, used to look for holes in the checks: each change is made in a scratch
copy, the quick checks of the properties its file matters to are run against it, and a change no check notices is put to the
repository's own stable tests. What is left (SURVIVED) is to be read by a person: equivalent, out of scope, or a hole."""
import argparse, ast, json, os, random, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.dont_write_bytecode = True
import plant

PROPS = [  # path prefix (longest match wins) -> properties, in the order tried
    ("algorithms/", "C06 C01 C05 C21 C26 C07 C03"),
    ("algorithms/simple_evolution", "C01 C06 C07 C26 C21 C05"),
    ("base/typed", "C25 C16"), ("base/untyped", "C25 C16"), ("base/utils", "C36 C25 C13 C26"),
    ("before_after", "C20 C06 C37"), ("event_based", "C20 C06 C37"),
    ("breeders/", "C02 C24 C06 C26 C20 C33 C37"),
    ("creators/ga_", "C10 C27 C26 C35"), ("creators/gp_", "C14 C32 C13 C27 C26 C28 C35"), ("creators/gp_creators/half", "C14 C27 C26 C34 C35"),
    ("creators/creator", "C27 C26 C20"),
    ("evaluators/", "C04 C01 C03 C26 C37"),
    ("fitness/", "C17 C09 C23 C19"),
    ("genetic_encodings/ga", "C29 C10 C11 C12 C09 C26 C32 C35"), ("genetic_encodings/gp", "C31 C13 C15 C16 C28 C26 C09 C14 C30 C32 C36 C35"),
    ("genetic_operators/crossovers/subtree", "C15 C13 C28 C17"), ("genetic_operators/crossovers/vector", "C11 C10 C17 C26"),
    ("genetic_operators/mutations/vector", "C12 C10 C32 C26"), ("genetic_operators/mutations", "C15 C13 C14 C28 C32 C24"),
    ("genetic_operators/selections", "C08 C24 C02 C34 C35"), ("genetic_operators/", "C12 C24 C17 C26 C20 C09 C32"),
    ("individual", "C09 C03 C24 C23"),
    ("multi_objective_evolution/crowding", "C07"), ("multi_objective_evolution/nsga2_fit", "C19 C18 C17"),
    ("multi_objective_evolution/moe", "C23"), ("multi_objective_evolution", "C18 C03 C19 C06"),
    ("population", "C23 C26 C27"), ("subpopulation", "C27 C26 C02 C23"),
    ("random", "C05"), ("statistics", "C23 C26"), ("termination", "C07 C34 C35"), ("sklearn", "C22 C35"),
]


def props(path):
    best = max((p for p, _ in PROPS if path.startswith(p)), key=len, default=None)
    return dict(PROPS)[best].split() if best else []


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*", ast.Pow: "*"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()
    span = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: raw[slice(*span(n))].decode()
    out = []

    def add(n, new, what):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append((n.lineno, a, b, new, what))

    def visit(n, fn=None):
        if isinstance(n, (ast.FunctionDef,)):
            if n.name in ("__repr__", "__str__", "show"):
                return
            fn = n.name
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Raise):
            add(n, "pass", "no raise")
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            t = text(n)
            if t.startswith(("print", "logger", "warnings")):
                return
            if "super().__init__" not in t:
                add(n, "pass", "no call")
        if isinstance(n, (ast.Assign, ast.AugAssign)) and fn and fn != "__init__":
            add(n, "pass", "no assign")
        if isinstance(n, ast.Assert):
            add(n, "pass", "no assert")
        if isinstance(n, ast.Return) and n.value is not None and fn:
            add(n, "return None", "return None")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = text(n.left), text(n.comparators[0])
            add(n, f"({l} {CMP[type(n.ops[0])]} {r})", "cmp")
            if type(n.ops[0]) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE):
                o = {ast.Lt: ">", ast.Gt: "<", ast.LtE: ">=", ast.GtE: "<="}[type(n.ops[0])]
                add(n, f"({l} {o} {r})", "cmp reversed")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            if not any(isinstance(x, (ast.JoinedStr,)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n)):
                add(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", "arith")
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join("(" + text(v) + ")" for v in n.values) + ")", "and/or")
            for v in n.values:
                add(n, "(" + text(v) + ")", "one operand")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, "(" + text(n.operand) + ")", "no " + ("not" if isinstance(n.op, ast.Not) else "minus"))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, f"(not ({text(n.test)}))", "negated test")
            if isinstance(n, ast.If):
                add(n.test, "False", "if False")
                add(n.test, "True", "if True")
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), "bool")
            elif isinstance(v, int):
                add(n, str(v + 1), "+1")
                add(n, str(v - 1), "-1")
            elif isinstance(v, float):
                add(n, repr(v * 2 + 1), "float")
            elif v is None and fn:
                pass
        if isinstance(n, ast.Call):
            f = text(n.func)
            if f.split(".")[-1] in ("deepcopy", "copy", "clone", "list", "sorted", "reversed", "abs", "round", "set", "tuple", "int", "float", "sum"):
                if len(n.args) >= 1:
                    add(n, text(n.args[0]), "no " + f)
                elif isinstance(n.func, ast.Attribute) and not n.args:
                    add(n, text(n.func.value), "no " + f)
            swap = {"min": "max", "max": "min", "any": "all", "all": "any", "choice": None, "append": None}
            if f in swap and swap[f]:
                a, b = span(n.func)
                out.append((n.lineno, a, b, swap[f], f"{f}->{swap[f]}"))
            if len(n.args) == 2 and not n.keywords and f not in ("isinstance", "range", "getattr", "hasattr"):
                (a, _), (_, b) = span(n.args[0]), span(n.args[1])
                out.append((n.lineno, a, b, text(n.args[1]) + ", " + text(n.args[0]), "swapped args"))
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1 and fn:
                    s = raw[:span(k.value)[1]].rfind(k.arg.encode())
                    e = span(k.value)[1]
                    rest = raw[e:e + 40].decode()
                    j = len(rest) - len(rest.lstrip())
                    if rest.lstrip().startswith(","):
                        e += j + 1
                    out.append((n.lineno, s, e, "", f"no {k.arg}="))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for p in ("lower", "upper"):
                x = getattr(n.slice, p)
                if x is not None:
                    add(x, f"{text(x)} + 1", "slice +1")
        if isinstance(n, ast.arguments):
            for a in n.args:
                if a.annotation:
                    pass
            for d in n.defaults + [x for x in n.kw_defaults if x]:
                visit(d, fn)
            return
        if isinstance(n, (ast.Break, ast.Continue)):
            add(n, "pass", "no " + type(n).__name__.lower())
        for f, v in ast.iter_fields(n):
            if f in ("decorator_list", "annotation", "returns"):
                continue
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST):
                    visit(c, fn)
    visit(tree)
    res, seen = [], set()
    for ln, a, b, new, what in out:
        m = raw[:a] + new.encode() + raw[b:]
        if m in seen or m == raw:
            continue
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        seen.add(m)
        res.append((ln, what, raw[a:b].decode(), new, m))
    return res


def files():
    r = subprocess.run(["git", "-C", "/repo", "ls-files", "eckity/*.py"], capture_output=True, text=True).stdout.split()
    return [f for f in r if "/tests/" not in f and "__init__" not in f and "examples" not in f and "plot" not in f]


def one(m):
    path, i, ln, what, old, new, data = m
    top = tempfile.mkdtemp(prefix="mut-")
    try:
        repo = os.path.join(top, "repo")
        os.makedirs(repo)
        subprocess.run(["cp", "-a"] + [os.path.join("/repo", x) for x in os.listdir("/repo") if x != ".git"] + [repo])
        open(os.path.join(repo, path), "wb").write(data)
        rec = dict(file=path, i=i, line=ln, what=what, old=old, new=new)
        r = subprocess.run([plant.PY, "-c", "import eckity.algorithms.simple_evolution, eckity.creators, eckity.genetic_operators, "
                            "eckity.multi_objective_evolution.nsga2_evolution, eckity.sklearn_compatible.sk_regressor, "
                            "eckity.sklearn_compatible.sk_classifier"], cwd=repo, env=dict(plant.ENV, PYTHONPATH=repo), capture_output=True)
        if r.returncode:
            return dict(rec, res="does not import")
        quiet = []
        ps = props(path[len("eckity/"):])
        for p, part in [(p, ["--part"]) for p in ps[:2]] + [(p, []) for p in ps]:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_DRIVE_TIMEOUT="100", VERIF_OUT=os.path.join(top, "out"))
            r = subprocess.run(["python3", os.path.join(ROOT, "run.py"), p, "--no-mc"] + part, cwd=ROOT, env=env, capture_output=True, text=True)
            if r.returncode == 1:
                return dict(rec, res="caught", by=p + "".join(part), quiet=quiet)
            if r.returncode != 0:
                quiet.append(f"{p}:rc{r.returncode}:{(r.stdout + r.stderr)[-300:]}")
            elif not part:
                quiet.append(p)
        bad = plant.tests(repo)
        if bad:
            return dict(rec, res="tests", quiet=quiet, bad=bad[:3])
        return dict(rec, res="SURVIVED", quiet=quiet)
    except Exception as ex:
        return dict(file=path, i=i, res="error", err=repr(ex))
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("--files", default="")
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--log", default="/tmp/mut.jsonl")
    ap.add_argument("--sample", type=int, default=0)
    a = ap.parse_args()
    all_ = []
    for f in files():
        if not any(x in f for x in a.files.split(",")):
            continue
        src = open(os.path.join("/repo", f), newline="").read()
        for i, (ln, what, old, new, data) in enumerate(mutants(src)):
            all_.append((f, i, ln, what, old, new, data))
    if a.cmd == "list":
        import collections
        c = collections.Counter(m[0] for m in all_)
        for f, n in c.most_common():
            print(n, f, props(f[len("eckity/"):]))
        print(len(all_))
        sys.exit()
    done = set()
    if os.path.exists(a.log):
        for l in open(a.log):
            d = json.loads(l)
            done.add((d["file"], d["i"]))
    random.Random(5).shuffle(all_)
    todo = [m for m in all_ if (m[0], m[1]) not in done]
    if a.sample:
        todo = todo[:a.sample]
    lock = threading.Lock()
    with open(a.log, "a") as log, ThreadPoolExecutor(a.jobs) as ex:
        for rec in ex.map(one, todo):
            log.write(json.dumps(rec) + "\n")
            log.flush()

"""Common part of the drivers: they run the real code of /repo and record traces."""
import argparse, fractions, json, logging, math, os, random, signal, sys, time, traceback, zlib

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
logging.disable(logging.CRITICAL)

ap = argparse.ArgumentParser()
ap.add_argument("--out", required=True)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--tier", default="quick")
ap.add_argument("--prop", default="")
ap.add_argument("--shard", type=int, default=0)
ap.add_argument("--nshards", type=int, default=1)
ap.add_argument("--only", type=int, default=None)
ap.add_argument("--opt", action="append", default=[])
ARGS = ap.parse_args()
OPT = dict(o.split("=", 1) for o in ARGS.opt)
THOROUGH = ARGS.tier == "thorough"
PROP = ARGS.prop

import eckity  # noqa
if os.path.dirname(os.path.dirname(os.path.abspath(eckity.__file__))) != os.path.realpath(REPO) and \
        os.path.dirname(os.path.dirname(os.path.abspath(eckity.__file__))) != REPO:
    print("eckity imported from the wrong place:", eckity.__file__)
    sys.exit(3)


class EpisodeTimeout(BaseException):
    pass


def _alarm(sig, frame):
    raise EpisodeTimeout()


signal.signal(signal.SIGALRM, _alarm)


class Rec:
    """Records the events of one episode."""

    def __init__(self, ep, rnd):
        self.ep, self.rnd, self.lines = ep, rnd, []
        self._ids, self._keep = {}, []

    def ev(self, op, **kw):
        self.lines.append(dict(kw, op=op))

    def uid(self, obj):
        """Small stable number for an object (identity), keeping it alive."""
        k = id(obj)
        if k not in self._ids:
            self._ids[k] = len(self._ids) + 1
            self._keep.append(obj)
        return self._ids[k]

    def guard(self, op, fn, *a, **kw):
        """Call fn; returns (result, exception name or '')."""
        try:
            return fn(*a, **kw), ""
        except Exception as ex:
            return None, type(ex).__name__


class Interner:
    def __init__(self):
        self.d = {}

    def __call__(self, x):
        return self.d.setdefault(x, len(self.d) + 1)


def is_num(x):
    import numpy as np
    return isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, bool)


class Num:
    """A number to be replaced by its rank within the episode (order preserving)."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def rankify(lines):
    vals = set()

    def bad(v):
        """what is not a number at all has no rank"""
        return not (is_num(v) or isinstance(v, (bool, fractions.Fraction)))

    def walk(x):
        if isinstance(x, Num):
            if bad(x.v) or x.v != x.v:
                return
            vals.add(x.v)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)

    def sub(x):
        if isinstance(x, Num):
            if bad(x.v):
                return -888888888
            if x.v != x.v:
                return -999999
            return rank[x.v]
        if isinstance(x, dict):
            return {k: sub(y) for k, y in x.items()}
        if isinstance(x, (list, tuple)):
            return [sub(y) for y in x]
        return x
    walk(lines)
    rank = {v: i for i, v in enumerate(sorted(vals))}
    return sub(lines)


def clean(x):
    """JSON value TLC can read: no null, no floats, ints of 32 bit."""
    import numpy as np
    if x is None:
        return "none"
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return x if -2**31 < x < 2**31 else (2**31 - 1 if x > 0 else -2**31 + 1)
    if isinstance(x, (float, np.floating)):
        if x == int(x) if math.isfinite(x) else False:
            return clean(int(x))
        return "float:" + repr(float(x))
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    return str(x)


def run(episodes, limit=120):
    """episodes: list of callables fn(rec). Runs this shard's share and writes the trace."""
    t0 = time.time()
    n = 0
    with open(ARGS.out, "w") as f:
        for i, fn in enumerate(episodes):
            if ARGS.only is not None:
                if i != ARGS.only:
                    continue
            elif i % ARGS.nshards != ARGS.shard:
                continue
            import numpy as np
            s = zlib.crc32(f"{ARGS.seed}:{ARGS.prop}:{i}".encode())
            rec = Rec(i, random.Random(s))
            random.seed(s)
            np.random.seed(s)
            signal.alarm(limit)
            try:
                fn(rec)
            except EpisodeTimeout:
                rec.ev("Exc", what="timeout", where=getattr(fn, "tag", ""))
            except Exception as ex:
                tb = traceback.extract_tb(ex.__traceback__)
                where = [f"{os.path.basename(x.filename)}:{x.name}" for x in tb if "/eckity/" in x.filename]
                mine = [f"{os.path.basename(x.filename)}:{x.lineno}" for x in tb if "/drivers/" in x.filename]
                rec.ev("Exc", what=type(ex).__name__, where=" ".join(where[-2:] + mine[-1:]),
                       msg=str(ex)[:200])
                if OPT.get("debug"):
                    traceback.print_exc()
            finally:
                signal.alarm(0)
            for k, line in enumerate(rankify(rec.lines)):
                line = clean(line)
                line["ep"] = i
                line["first"] = (k == 0)
                f.write(json.dumps(line) + "\n")
            n += 1
    print(json.dumps(dict(episodes=n, wall=round(time.time() - t0, 2))))
    sys.stdout.flush()
    os._exit(0)

"""The built-in GP functions on numbers and arrays (C25)."""
from evolib import *
from eckity.base import typed_functions as TF
import itertools, warnings

warnings.simplefilter("ignore")
NAMES = {}
for mod in (UF, TF):
    for n in mod.__all__:
        NAMES[n] = getattr(mod, n)
BOOLS = {"and2bools": "bb", "or2bools": "bb", "not2bools": "b", "if_then_else3bools": "bbb", "if_then_else": "baa",
         "and2ints": "ii", "or2ints": "ii", "not2ints": "i", "if_then_else3ints": "iii"}
AR = dict(add=2, sub=2, mul=2, div=2, sqrt=1, log=1, abs=1, neg=1, inv=1, max=2, min=2, sin=1, cos=1, tan=1, iflte0=3, ifgt0=3, iflte=4, ifgt=4,
          argmax2floats=2)
AR["and"], AR["or"], AR["not"] = 2, 2, 1


def sig(n):
    """kinds of the arguments: f float, i int, b bool, a anything numeric"""
    if n in BOOLS:
        return BOOLS[n]
    if n == "f_if_then_else":
        return "aaa"
    if n == "argmax2floats":
        return "ff"
    base = n[2:] if n.startswith("f_") else n
    for k in ("2floats", "_floats", "_float"):
        base = base.replace(k, "")
    return ("a" if n.startswith("f_") else "f") * AR[base]


BOOLOPS = {"f_and", "f_or", "f_not", "and2floats", "or2floats", "not2floats"}
T = 0.001
SPECIAL = [0.0, -0.0, T, -T, np.nextafter(T, 1), np.nextafter(T, 0), -np.nextafter(T, 1), -np.nextafter(T, 0), 0.0011, 0.0009, -0.0011, 1e-300, -1e-300,
           5e-324, 1e300, -1e300, 1e16, 0.1, 0.3, -0.7, 2.5, float("inf"), float("-inf"), 1e-4, 0.01]


def small(r):
    return r.randint(-40, 40) / 8


def value(r, kind, special):
    if kind == "b":
        return r.random() < .5
    if kind == "i" or (kind == "a" and r.random() < .4):
        return r.choice([0, 1, -1, 2, 3, -5, 7, r.randint(-40, 40)])
    if special and r.random() < .6:
        if r.random() < .5:                     # any magnitude, and often one around the protection threshold
            m = 10 ** (r.uniform(-4.5, -0.5) if r.random() < .7 else r.uniform(-9, 9))
            return m if r.random() < .5 else -m
        return float(r.choice(SPECIAL))
    return float(small(r)) if r.random() < .8 else float(r.choice([0, 1, -1]))


def plain(f, a):
    """the unprotected result, computed by python's own arithmetic"""
    a = [float(x) for x in a]
    try:
        base = f
        if "add" in base: return a[0] + a[1]
        if "sub" in base: return a[0] - a[1]
        if "mul" in base: return a[0] * a[1]
        if "div" in base: return a[0] / a[1] if not (math.isinf(a[1]) and math.isinf(a[0])) else float("nan")
        if "inv" in base: return 1 / a[0]
        if "sqrt" in base: return math.sqrt(abs(a[0]))
        if "log" in base: return math.log(abs(a[0]))
        if "abs" in base: return abs(a[0])
        if "neg" in base: return -a[0]
        if "sin" in base: return math.sin(a[0])
        if "cos" in base: return math.cos(a[0])
        if "tan" in base: return math.tan(a[0])
    except (ZeroDivisionError, ValueError, OverflowError):
        return float("nan")
    return None


EXACT = ("add", "sub", "mul", "div", "inv", "sqrt", "abs", "neg")


def same(x, y, exact):
    if y is None:
        return True
    if math.isnan(y):
        return math.isnan(x)
    if x == y:
        return True
    return not exact and not math.isinf(y) and abs(x - y) <= 1e-9 * max(1e-3, abs(y))


def e8(x, m=8):
    x = float(x)
    if not math.isfinite(x) or abs(x) > 10**4 or x * m != int(x * m):
        return -777777777
    return int(x * m)


def log_call(rec, f, args, r, arr):
    r = float(r)
    rec.ev("Call", f=f, a=[Num(float(x)) for x in args], z=Num(0.0), r=Num(r), ri=int(r) if r in (0.0, 1.0) else -1,
           small=all(e8(x) != -777777777 for x in args), a8=[e8(x) for x in args], r8=e8(r), r64=e8(r, 64),
           t=[(abs(float(x)) > T) - (abs(float(x)) < T) for x in args], zero=r == 0.0,
           plain=bool(same(r, plain(f, args), any(k in f for k in EXACT))), arr=arr, txt=repr(args) + " -> " + repr(r))


def scalars(rec, f, args):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = NAMES[f](*args)
    except Exception as ex:
        rec.ev("Raised", f=f, what=type(ex).__name__, txt=repr(args)[:200])
        return
    if np.shape(r) != ():
        rec.ev("Shape", f=f, want="()", got=str(np.shape(r)))
        return
    log_call(rec, f, args, r, False)


def ep_scalar(f):
    def ep(rec):
        r = rec.rnd
        for _ in range(60 if THOROUGH else 25):
            sp = r.random() < .6
            scalars(rec, f, [value(r, k, sp and f not in ("sin",)) for k in sig(f)])
    return ep


def ep_special(f):
    """all combinations of special values in the critical positions"""
    def ep(rec):
        k = len(sig(f))
        vals = [float(x) for x in SPECIAL] if k == 1 else SPECIAL if k == 2 and THOROUGH else [0.0, T, -T, np.nextafter(T, 1), np.nextafter(T, 0), -1.0, 2.5, 1e300]
        if k >= 3:
            vals = [0.0, T, -1.0, 2.5]
        for a in itertools.product(vals, repeat=k):
            if any(math.isnan(x) for x in a):
                continue
            scalars(rec, f, [float(x) for x in a])
    return ep


def ep_table(f):
    def ep(rec):
        kinds = sig(f)
        dom = {"b": [False, True], "i": [0, 1, -1, 2], "a": [0, 1, 2, 0.5, -3], "f": [0.0, 1.0, -0.5, 2.0, T]}
        if f in ("f_and", "f_or", "f_not", "f_if_then_else", "if_then_else"):
            dom["a"] = [0, 1, 2, 0.5, True, False]
        for a in itertools.product(*[dom[k] for k in kinds]):
            scalars(rec, f, list(a))
    return ep


def ep_array(f):
    def ep(rec):
        r = rec.rnd
        for _ in range(6):
            shape = r.choice([(1,), (2,), (3,), (7,), (2, 3), (1, 1), (0,)]) if r.random() < .95 else r.choice([(40,), (257,), (20, 13)])
            n = math.prod(shape)
            args = []
            shape_arr = False
            for k in sig(f):
                if r.random() < .65:
                    kk = k
                    if k == "a":
                        kk = r.choice("fi")
                    vals = [value(r, kk, r.random() < .5) for _ in range(n)]
                    args.append(np.array(vals, dtype={"b": bool, "i": int, "f": float}[kk]).reshape(shape))
                    shape_arr = True
                else:
                    args.append(value(r, k, r.random() < .5))
            copies = [np.array(a, copy=True) if isinstance(a, np.ndarray) else a for a in args]
            ro = r.random() < .3
            if ro:
                for a in args:
                    if isinstance(a, np.ndarray):
                        a.flags.writeable = False
            try:
                res = NAMES[f](*args)
            except Exception as ex:
                rec.ev("Raised", f=f, what=type(ex).__name__, txt=repr(args)[:200])
                continue
            rec.ev("Frame", f=f, same=all(np.array_equal(np.asarray(a), np.asarray(c)) and np.asarray(a).dtype == np.asarray(c).dtype
                                         for a, c in zip(args, copies)),
                   alias=any(isinstance(a, np.ndarray) and isinstance(res, np.ndarray) and np.shares_memory(a, res) for a in args))
            want = shape if shape_arr else ()
            if np.shape(res) != want:
                rec.ev("Shape", f=f, want=str(want), got=str(np.shape(res)))
                continue
            for j in (range(n) if n < 10 else r.sample(range(n), 8)) if shape_arr else range(1):
                at = lambda a: a.reshape(-1)[j].item() if isinstance(a, np.ndarray) else a
                log_call(rec, f, [at(a) for a in copies], np.asarray(res).reshape(-1)[j].item(), True)
    return ep


def ep_dtype(f):
    """functions that choose or judge, on arrays of every kind of number"""
    def ep(rec):
        r = rec.rnd
        for _ in range(8):
            dt = r.choice([np.uint8, np.int8, np.uint16, np.int16, np.int32, np.uint32, np.float32, bool])
            n = r.choice([1, 3, 6])
            args = []
            for _ in sig(f):
                if dt is np.float32:
                    vals = [r.choice([0.0, 1e-30, -1e-30, 3e38, -3e38, float("inf"), float("-inf"), r.uniform(-2, 2)]) for _ in range(n)]
                elif dt is bool:
                    vals = [r.random() < .5 for _ in range(n)]
                else:
                    i = np.iinfo(dt)
                    vals = [r.choice([0, 1, int(i.min), int(i.max), r.randint(max(int(i.min), -4), 4), r.randint(int(i.min), int(i.max))]) for _ in range(n)]
                args.append(np.array(vals, dtype=dt))
            copies = [a.copy() for a in args]
            try:
                res = NAMES[f](*args)
            except Exception as ex:
                rec.ev("Raised", f=f, what=type(ex).__name__, txt=repr(args)[:200])
                continue
            rec.ev("Frame", f=f, same=all(np.array_equal(a, c) for a, c in zip(args, copies)), alias=any(np.shares_memory(a, np.asarray(res)) for a in args))
            if np.shape(res) != (n,):
                rec.ev("Shape", f=f, want=str((n,)), got=str(np.shape(res)))
                continue
            for j in range(n):
                log_call(rec, f, [a[j].item() for a in copies], np.asarray(res)[j].item(), True)
    return ep


def ep_ints(f):
    """arrays of integers of any width (results that fit), alone and mixed with numbers"""
    def ep(rec):
        r = rec.rnd
        small_ok = any(k in f for k in ("div", "inv", "add", "sub", "mul", "abs", "neg", "max", "min", "if"))
        for _ in range(8):
            dts = [np.int8, np.int16, np.int32, np.int64] if small_ok else [np.int32, np.int64]
            shape = r.choice([(1,), (3,), (6,), (2, 2), (0,)])
            n = math.prod(shape)
            args, arr = [], False
            for _ in sig(f):
                if arr and r.random() < .25:
                    args.append(r.choice([0, 1, -2, 3, 0.5, -0.125]))
                    continue
                arr = True
                hi = 100 if "div" in f or "inv" in f else 5
                vals = [r.choice([0, 1, -1, r.randint(-hi, hi)]) for _ in range(n)]
                args.append(np.array(vals, dtype=r.choice(dts)).reshape(shape))
            copies = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
            try:
                res = NAMES[f](*args)
            except Exception as ex:
                rec.ev("Raised", f=f, what=type(ex).__name__, txt=repr(args)[:200])
                continue
            rec.ev("Frame", f=f, same=all(np.array_equal(a, c) and np.asarray(a).dtype == np.asarray(c).dtype for a, c in zip(args, copies)),
                   alias=any(isinstance(a, np.ndarray) and np.shares_memory(a, np.asarray(res)) for a in args))
            if np.shape(res) != shape:
                rec.ev("Shape", f=f, want=str(shape), got=str(np.shape(res)))
                continue
            if any(isinstance(a, float) for a in args) and any(isinstance(a, np.ndarray) and a.dtype in (np.int8, np.int16) for a in args):
                continue    # NumPy computes these in half or single precision
            for j in range(n):
                at = lambda a: a.reshape(-1)[j].item() if isinstance(a, np.ndarray) else a
                log_call(rec, f, [at(a) for a in copies], np.asarray(res).reshape(-1)[j].item(), True)
    return ep


def ep_nan(f):
    """values that are no number: they spread through arithmetic, and only the chosen branch counts"""
    def ep(rec):
        r = rec.rnd
        for _ in range(12):
            args = [float(small(r)) if r.random() < .6 else float("nan") for _ in sig(f)]
            arr = r.random() < .5
            wrap = (lambda x: np.array([x, x])) if arr else (lambda x: x)
            try:
                res = NAMES[f](*[wrap(x) for x in args])
                swapped = NAMES[f](*[wrap(x) for x in args[::-1]]) if len(args) == 2 else res
            except Exception as ex:
                rec.ev("Raised", f=f, what=type(ex).__name__, txt=repr(args)[:200])
                continue
            one = lambda x: np.asarray(x).reshape(-1)[-1].item()
            clean = [0.0 if math.isnan(x) else x for x in args]
            rec.ev("Nan", f=f, n=[math.isnan(x) for x in args], a=[Num(x) for x in clean], z=Num(0.0), rn=math.isnan(one(res)), swapped=math.isnan(one(swapped)),
                   t=[(abs(x) > T) - (abs(x) < T) for x in clean], txt=repr(args) + " -> " + repr(res))
    return ep


CHOOSERS = [f for f in NAMES if any(k in f for k in ("iflte", "ifgt", "max", "min", "f_and", "f_or", "f_not", "if_then_else", "and2ints", "or2ints", "not2ints"))]


def main():
    q = 6 if THOROUGH else 1
    eps = []
    for f in NAMES:
        floaty = f not in BOOLS or f == "if_then_else"
        eps.append(ep_table(f))
        if f not in ("f_and", "f_or", "f_not") and floaty and f != "if_then_else":
            eps.append(ep_special(f))
        eps += [ep_scalar(f)] * (8 * q) + [ep_array(f)] * (24 * q)
        if "b" not in sig(f):
            eps += [ep_ints(f)] * (3 * q)
        if "b" not in sig(f) and "i" not in sig(f):
            eps += [ep_nan(f)] * (2 * q)
        if f in CHOOSERS:
            eps += [ep_dtype(f)] * (3 * q)
    run(eps)


main()

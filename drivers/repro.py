"""The same configuration and seed in different environments (C05)."""
from evolib import *
import subprocess, tempfile

VARIANTS = [
    dict(name="plain", ids=0, hash="0", executor="thread", workers=1, mode="", ambient=False, scramble=False, prior=False, twice=False),
    dict(name="noisy", ids=4, hash="1", executor="thread", workers=4, mode="jitter", ambient=True, scramble=True, prior=True, twice=True),
    dict(name="other", ids=6, hash="random", executor="thread", workers=None, mode="", ambient=True, scramble=False, prior=False, twice=False),
    dict(name="process", ids=0, hash="77", executor="process", workers=2, mode="", ambient=True, scramble=True, prior=False, twice=False),
]


def block(kinds):
    def ep(rec):
        r = rec.rnd
        configs = [[k, r.randint(0, 10**9)] for k in kinds]
        d = tempfile.mkdtemp(prefix="repro")
        res = []
        ps = []
        for i, v in enumerate(VARIANTS):
            job = os.path.join(d, f"job{i}.json")
            json.dump(dict(variant=v, configs=configs), open(job, "w"))
            ps.append((v, os.path.join(d, f"out{i}.json"), subprocess.Popen(
                [sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "repro_child.py"), "--out",
                 os.path.join(d, f"out{i}.json"), "--opt", "job=" + job],
                env=dict(os.environ, PYTHONHASHSEED=v["hash"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for v, out, p in ps:
            log, _ = p.communicate(timeout=300)
            if p.returncode != 0:
                raise RuntimeError(log.decode()[-800:])
            res += [(k, v["name"], h) for k, h in json.load(open(out))]
        it = Interner()
        res.sort(key=lambda x: x[0])
        for k, name, h in res:
            rec.ev("Run", cfg=k, kind=configs[k][0], seed=str(configs[k][1]), env=name, hist=[[it(a), it(b)] for a, b in h],
                   ok=not any(a.startswith("exc") for a, b in h))
    return ep


def main():
    q = 6 if THOROUGH else 1
    kinds = ["vec", "tree", "nsga"] * (12 if not THOROUGH else 25)
    run([block(kinds)] * (4 * q), limit=400)


main()

"""Loads a pickled algorithm in another process, evolves or executes it and reports (used by persist.py)."""
from persistlib import *


def main():
    out = []
    for path, act, args in json.load(open(OPT["job"])):
        try:
            alg = pickle.load(open(path, "rb"))
            if act == "run":
                alg.evolve()
                out.append(alg.h.h)
            else:
                out.append(repr(np.asarray(alg.execute(**args)).tolist()))
        except Exception as ex:
            out.append("exc " + type(ex).__name__ + " " + str(ex)[:200])
    json.dump(out, open(ARGS.out, "w"))
    sys.stdout.flush()
    os._exit(0)


main()

#!/usr/bin/env python3
"""run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]   decide one property on /repo's working tree"""
import argparse, collections, json, os, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get("VERIF_OUT", ROOT)       # where evidence and replays go (tools/mutate.py sends them elsewhere)
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.dont_write_bytecode = True
import vlib
from vlib import MachineryError
from checks import CHECKS


def known_findings(prop):
    out = []
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=" + prop + " "):
                f = dict(x.split("=", 1) for x in line.split("|")[0].split()[1:] if "=" in x)
                f["text"] = line.split("|", 1)[1].strip() if "|" in line else ""
                out.append(f)
    return out


def mine(prop, clauses):
    return sorted(c for c in clauses if c.startswith(prop + ".") or c.startswith("X."))


def save_replay(prop, name, data):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{name}.json")
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def drive_shard(prop, d, shard, nshards, scratch, seed, tier, only=None):
    opts = dict(d.opts)
    if d.gen:
        opts["cases"] = os.path.join(scratch, d.driver + ".cases.json")
    hs = d.hashseeds[shard % len(d.hashseeds)]
    out = os.path.join(scratch, f"{d.driver}-{shard}.ndjson")
    rc, log = vlib.run_driver(d.driver, out, scratch, seed, tier, prop, shard, nshards, only=only,
                              timeout=int(os.environ.get("VERIF_DRIVE_TIMEOUT", d.timeout * (4 if tier == "thorough" else 1))), hashseed=hs, extra=opts)
    if rc == "timeout":
        return dict(kind="hang", driver=d.driver, shard=shard, log=log[-2000:])
    if rc != 0:
        raise MachineryError(f"driver {d.driver} failed ({rc}):\n{log[-3000:]}")
    n, fails, r = vlib.judge(d.trace, out, scratch, timeout=d.timeout * (6 if tier == "thorough" else 2),
                             mem="6g" if tier == "thorough" else "3g")
    ops, eps, samples, bad, last = collections.Counter(), set(), [], [], None
    with open(out) as f:
        for i, line in enumerate(f, 1):
            need = i in fails or len(samples) < 2
            e = json.loads(line) if need or True else None
            ops[e["op"]] += 1
            eps.add(e["ep"])
            if len(samples) < 2 and not e.get("first") and len(line) < 1500:
                samples.append(e)
            if i in fails:
                bad.append((e["ep"], i, sorted(fails[i]), e))
    os.unlink(out)
    return dict(kind="ok", driver=d.driver, lines=n, episodes=len(eps), ops=ops, samples=samples, bad=bad,
                wall=r.wall, shard=shard, nshards=nshards, hashseed=hs, log=log)


def generate(d, scratch, tier):
    """the cases TLC enumerates for a driver, all configurations concatenated"""
    allc = []
    for module, cfg, q, t in d.gen:
        out = os.path.join(scratch, "cases.json")
        vlib.gen_cases(module, cfg, out, scratch, consts=t if tier == "thorough" else q)
        allc += json.load(open(out))
    with open(os.path.join(scratch, d.driver + ".cases.json"), "w") as f:
        json.dump(allc, f)
    return len(allc)


def run_mc(m, scratch, tier):
    consts = dict(m.consts)
    if tier == "thorough" and m.thorough:
        consts.update(m.thorough)
    r = vlib.tlc(m.module, m.cfg, scratch, workers=m.workers * (2 if tier == "thorough" else 1),
                 timeout=m.timeout * (8 if tier == "thorough" else 1), consts=consts,
                 mem="6g" if tier == "thorough" else "3g")
    if not r.ok:
        raise MachineryError(f"model {m.module}: \n" + "\n".join(r.out.splitlines()[-60:]))
    res = dict(module=m.module, distinct=r.distinct, generated=r.generated, depth=r.depth)
    if tier == "thorough":
        res["design_errors_detected"] = model_bugs(m, scratch)
    return res


def model_bugs(m, scratch):
    found = {}
    for b, inv in m.bugs.items():
        r = vlib.tlc(m.module, m.cfg, scratch, workers=m.workers, timeout=m.timeout,
                     consts=dict(m.consts, **{m.const: f'= "{b}"'}))
        if r.violated != inv and inv != "*" or r.ok:
            raise MachineryError(f"model {m.module} with design error {b}: expected {inv} violated, got {r.violated}\n"
                                 + "\n".join(r.out.splitlines()[-20:]))
        found[b] = r.violated
    return found


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--no-mc", action="store_true", help="judge the code only")
    ap.add_argument("--part", action="store_true", help="judge one shard of each driver only")
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, a.seed
    chk = CHECKS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        rc = decide(prop, chk, tier, seed, scratch, t0, a)
    except MachineryError as e:
        print("ERROR", e)
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(prop, chk, tier, seed, scratch, t0, a):
    only = None
    drives = chk.drives
    if a.replay:
        rp = json.load(open(a.replay))
        seed, tier, only = rp["seed"], rp["tier"], rp.get("episode")
        drives = [d for d in drives if d.driver == rp["driver"]]
        print(json.dumps(rp, indent=1))
    jobs, mcs = [], []
    ncases = {}
    for d in drives:
        if d.gen:
            ncases[d.driver] = generate(d, scratch, tier)
    with ThreadPoolExecutor(8) as pool:
        for d in drives:
            n = 1 if only is not None else (d.tshards if tier == "thorough" else d.shards)
            for s in range(1 if a.part else n):
                jobs.append(pool.submit(drive_shard, prop, d, s, n, scratch, seed, tier, only))
        if not a.replay and not a.no_mc:
            for m in chk.mc:
                mcs.append(pool.submit(run_mc, m, scratch, tier))
        res = [j.result() for j in jobs]
        mres = [m.result() for m in mcs]

    viol, ops, samples, known = [], collections.Counter(), [], known_findings(prop)
    lines = episodes = 0
    hit_known = {}
    for r in res:
        if r["kind"] == "hang":
            path = save_replay(prop, f"{r['driver']}-hang", dict(property=prop, driver=r["driver"], seed=seed, tier=tier,
                               what="the driver did not finish: the code hangs", log=r["log"]))
            viol.append((["X.hang"], path, r["log"][-300:]))
            continue
        lines += r["lines"]
        episodes += r["episodes"]
        ops.update(r["ops"])
        samples += r["samples"]
        for ep, i, clauses, e in r["bad"]:
            m = mine(prop, clauses)
            if not m:
                continue
            sig = str(e.get("sig", e["op"]))
            kf = [k for k in known if k.get("sig") == sig and set(m) <= set(k.get("clause", "").split(","))]
            if kf:
                hit_known.setdefault(kf[0]["text"], kf[0])
                continue
            path = None
            if len(viol) < 20:
                path = save_replay(prop, f"{r['driver']}-{ep}-{i}", dict(
                    property=prop, driver=r["driver"], seed=seed, tier=tier, episode=ep, shard=r["shard"],
                    nshards=r["nshards"], hashseed=r["hashseed"], clauses=m, event=e))
            viol.append((m, path, e))
    for t in hit_known:
        print(f"KNOWN-FINDING: property={prop} {t}")
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=sum(m["distinct"] for m in mres), transitions=sum(m["generated"] for m in mres),
                            traces_validated_against_impl=episodes, trace_events=lines, events_by_kind=dict(ops),
                            models=mres, cases_generated_by_the_model=ncases, samples=samples[:4]),
              assumptions=chk.assumptions, wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not a.replay:
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    cl = collections.Counter(c for m, _, _ in viol for c in m)
    if viol:
        print("violated clauses:", dict(cl))
        for m, path, e in viol[:3]:
            print(m, str(e)[:600])
        for m, path, e in viol[:5]:
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"OK {prop} tier={tier} seed={seed}: {episodes} traces, {lines} events, "
          f"{ev['coverage']['states']} model states, {ev['wall_s']} s")
    return 0


main()

"""Worker process.  argv: MODE CHECK ... ; prints JSON lines on the original stdout."""
import json
import os
import sys
import time as _t


def main():
    import faulthandler, signal
    faulthandler.register(signal.SIGUSR1, all_threads=True)
    mode, cid = sys.argv[1], sys.argv[2]
    real_out = os.fdopen(os.dup(1), "w", buffering=1)
    perf = _t.perf_counter
    from . import boot
    boot.boot()
    from . import core, procs, registry
    from .base import rng_for
    import gc
    chk = registry.get(cid)
    chk.oracle_child = mode == "oracle"
    chk.setup()
    core.lines(chk.lines)
    for k in range(chk.warmups):      # lazy imports and caches fill before the first counted run
        rng, sseed = rng_for("warm", cid, k)
        chk.execute(chk.gen(rng, "quick"), sseed)
    gc.collect()
    gc.freeze()

    def emit(**k):
        real_out.write(json.dumps(k) + "\n")

    if mode == "oracle":
        buf = b""
        while True:
            d = procs.o_read(0, 1 << 20)
            if not d:
                os._exit(0)
            buf += d
            while b"\n" in buf:
                line, _, buf = buf.partition(b"\n")
                real_out.write(json.dumps(chk.answer(json.loads(line))) + "\n")
    elif mode == "batch":
        vseed, tier = sys.argv[3], sys.argv[4]
        start, stop, step = int(sys.argv[5]), int(sys.argv[6]), int(sys.argv[7])
        limit = float(sys.argv[8])
        known = json.loads(sys.argv[9]) if len(sys.argv) > 9 else []
        t0 = perf()
        agg = new_agg()
        nrun = 0
        for i in range(start, stop, step):
            if perf() - t0 > limit:
                agg["truncated"] = True
                break
            rng, sseed = rng_for(vseed, cid, i)
            scen = chk.gen(rng, tier)
            res = chk.execute(scen, sseed)
            nrun += 1
            add(agg, res, i, scen)
            if res.errors:
                emit(t="error", i=i, errors=res.errors[:3])
                agg["errors"] += 1
            bad = []
            for v in res.violations:
                k = match_known(known, v)
                if k is not None:
                    agg["known"][k] = agg["known"].get(k, 0) + 1
                else:
                    bad.append(v)
            if bad and len(sys.argv) > 10:
                for v in bad:
                    emit(t="sv", i=i, cls=v["cls"], sig=v.get("sig"), msg=v["msg"][:600])
            elif bad:
                emit(t="violation", i=i, sseed=sseed, scen=scen, choices=res.choices, v=bad[0], thash=res.thash)
                break
            if nrun % 500 == 0:
                emit(t="progress", n=nrun)
        agg["wall"] = perf() - t0
        emit(t="done", agg=pack(agg))
    elif mode == "hashes":
        vseed, tier = sys.argv[3], sys.argv[4]
        idx = json.loads(sys.argv[5])
        for i in idx:
            rng, sseed = rng_for(vseed, cid, i)
            scen = chk.gen(rng, tier)
            res = chk.execute(scen, sseed, log=bool(os.environ.get("SIM_HLOG")))
            if os.environ.get("SIM_HLOG"):
                open(os.environ["SIM_HLOG"] + "." + str(i), "w").write("\n".join(res.log))
            emit(t="hash", i=i, h=[res.thash, res.shash, res.points, round(res.sim_time, 9), len(res.violations)])
    elif mode == "one":
        f = json.load(open(sys.argv[3]))
        res = chk.execute(f["scenario"], f["sseed"], replay=f["choices"], log=True)
        emit(t="result", violations=res.violations, thash=res.thash, log=(res.log or [])[-int(os.environ.get("SIM_LOGTAIL", "400")):],
             errors=res.errors, inconclusive=res.inconclusive, points=res.points, sim_time=res.sim_time)
    elif mode == "seed":
        vseed, tier, i = sys.argv[3], sys.argv[4], int(sys.argv[5])
        rng, sseed = rng_for(vseed, cid, i)
        scen = chk.gen(rng, tier)
        res = chk.execute(scen, sseed, log=True)
        emit(t="result", scen=scen, violations=res.violations, thash=res.thash, errors=res.errors,
             stats=res.stats, probes=res.probes, inconclusive=res.inconclusive, points=res.points, sim_time=res.sim_time,
             log=(res.log or [])[-int(os.environ.get("SIM_LOGTAIL", "200")):])
    elif mode == "shrink":
        from .shrink import shrink
        f = json.load(open(sys.argv[3]))
        out = shrink(chk, f, float(sys.argv[4]), perf)
        emit(t="shrunk", f=out)
    real_out.flush()
    os._exit(0)


def match_known(known, v):
    for n, k in enumerate(known):
        if k["cls"] == v["cls"] and k["sig"] == v["sig"]:
            return str(n)
    return None


def new_agg():
    return {"runs": 0, "ops": 0, "sim_time": 0.0, "points": 0, "switches": 0, "stats": {}, "probes": {}, "traces": set(),
            "scheds": set(), "keys": set(), "nontrivial": 0, "known": {}, "errors": 0, "inconclusive": 0, "samples": [],
            "truncated": False, "faulty": 0, "incwhy": {}}


def add(a, r, i, scen):
    a["runs"] += 1
    a["ops"] += r.ops
    a["sim_time"] += r.sim_time
    a["points"] += r.points
    a["switches"] += r.switches
    for k, v in r.stats.items():
        a["stats"][k] = a["stats"].get(k, 0) + v
    for k, v in r.probes.items():
        a["probes"][k] = a["probes"].get(k, 0) + v
    if r.stats:
        a["faulty"] += 1
    a["traces"].add(r.thash)
    a["scheds"].add(r.shash)
    if r.nontrivial:
        a["nontrivial"] += 1
        a["keys"].add(r.key if r.key is not None else r.thash)
    if r.inconclusive:
        a["inconclusive"] += 1
        a["incwhy"][r.inconclusive] = a["incwhy"].get(r.inconclusive, 0) + 1
    if len(a["samples"]) < 1 and r.nontrivial:
        s = json.dumps(scen)
        a["samples"].append({"seed_index": i, "scenario": json.loads(s) if len(s) < 2500 else s[:1500] + "...", "points": r.points})


def pack(a):
    a = dict(a)
    for k in ("traces", "scheds", "keys"):
        a[k] = sorted(map(str, a[k]))
    return a


if __name__ == "__main__":
    main()

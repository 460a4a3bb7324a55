"""C11: version, flavour and capability detection of singularity under threads and failures."""
import copy
import itertools
import re

from . import core
from .base import Check, Result, list_shrinks
from .programs import Machine, ProgWorld
from .state import ModuleState

OUTS = ["singularity version 3.7.1", "singularity version 3.0.0", "singularity version 3.1.0", "singularity version 3.3.0", "singularity version 3.4.0-1.el7",
        "singularity version 2.6.1", "singularity version 2.5.2", "singularity version 2.6", "singularity-ce version 3.9.5", "singularity-ce version 3.11.4-jammy",
        "singularity-ce version 4.0.1", "singularity-ce version 4.10.0+5-g1d2c", "singularity-ce version 2.6.0", "apptainer version 1.0.2", "apptainer version 1.1.9-1.el8",
        "apptainer version 1.3.0", "apptainer version 2.0.1", "apptainer version 0.1.0", "apptainer version 2.6.0", "apptainer version 3.2.0",
        "singularity-pro version 3.9.1", "singularity-pro version 2.6.3", "mysingularity version 3.5", "singularity version 10.0.0", "singularity version 3.10.2",
        "singularity version 1.9.0", "apptainer version 10.2"]
BAD = ["2.6.1-dist", "", "garbage", "singularity 3.7.1", "version", "singularity version", "bash: singularity: error"]
BADBYTES = [b"\xff\xfe version 3.7\n"]
FUNCS = ["get_version", "is_apptainer_1_or_newer", "is_version_2_6", "is_version_3_or_newer", "is_version_3_1_or_newer", "is_version_3_4_or_newer"]
YES = ["FATAL: \"/bin/sh doesn't exist in container", "ERROR  : No valid /bin/sh in container", "FATAL: exec: \"true\": executable file not found in $PATH"]
NO = ["ERROR  : Failed to create user namespace: user namespace disabled", "FATAL: kernel too old", ""]


def reference(out):
    m = re.match(r"(.+) version ([0-9\.]+)", out.strip())
    v = [int(x) for x in m.group(2).strip(".").split(".")]
    fl = m.group(1)
    app1 = fl == "apptainer" and v[0] >= 1
    minor = v[1] if len(v) > 1 else 0
    return {"get_version": [v, fl], "is_apptainer_1_or_newer": app1,
            "is_version_2_6": fl in ("singularity", "singularity-ce") and v[0] == 2 and minor == 6,
            "is_version_3_or_newer": app1 or v[0] >= 3,
            "is_version_3_1_or_newer": app1 or v[0] >= 4 or (v[0] == 3 and minor >= 1),
            "is_version_3_4_or_newer": app1 or v[0] >= 4 or (v[0] == 3 and minor >= 4)}


class SWorld(ProgWorld):
    def started(self, s, proc):
        super().started(s, proc)
        kind = "version" if proc.args[1:2] == ["--version"] or proc.args[1:2] == ["version"] else "probe" if "exec" in proc.args else "other"
        proc.meta["kind"] = kind
        self.all.append(proc)
        if kind == "version":
            self.vspawns.append(s.now)
        own = s.current
        while own is not None and own.opdata is None:
            own = own.parent
        f = own.opdata.get("fault") if own is not None else None
        if f and f["k"] != "spawn":
            if own.opdata.get("hit"):
                return
            own.opdata["hit"] = True
            own.opdata["fired"].append(f["k"])
            s.fired(kind + "-" + f["k"])
            proc.meta["fault"] = f

    def spawn_fault(self, s, name, argv):
        own = s.current
        while own is not None and own.opdata is None:
            own = own.parent
        f = own.opdata.get("fault") if own is not None else None
        if f and f["k"] == "spawn" and not own.opdata.get("hit"):
            own.opdata["hit"] = True
            own.opdata["fired"].append("spawn")
            s.fired("spawn-failure")
            return OSError(f["errno"], "injected", argv[0])
        return None

    def flt(self, sim, proc, good, fd):
        """Write `good` under the fault of this process."""
        f = proc.meta.get("fault") or {"k": None}
        k = f["k"]
        if k == "exit":
            yield ("exit", f.get("code", 1))
        if k == "signal":
            proc.die(f.get("sig", 11))
            yield ("hang",)
        if k == "garbage":
            yield ("write", fd, f["text"].encode() + b"\n")
            yield ("exit", 0)
        if k == "bytes":
            yield ("write", fd, BADBYTES[0])
            yield ("exit", 0)
        if k == "cut":       # dies in the middle of its output
            b = (good + "\n").encode()
            yield ("write", fd, b[:max(1, int(len(b) * f["frac"]))])
            proc.die(f.get("sig", 9))
            yield ("hang",)
        if k == "slow":
            yield ("sleep", f["d"])
        if k == "flood":
            yield ("write", 2, b"WARNING: something odd\n" * 4000)
        yield ("write", fd, (good + "\n").encode())

    def singularity_version(self, sim, proc):
        yield from self.flt(sim, proc, self.m.singularity["out"], 1)
        yield ("exit", 0)

    def userns_probe(self, sim, proc, userns):
        f = proc.meta.get("fault") or {"k": None}
        if f["k"] == "hang":
            proc.meta["ignores"] = (15,)
            yield ("hang",)
        if f["k"] == "stuck-output":
            yield ("write", 2, b"INFO: starting\n")
            yield ("hang",)
        sg = self.m.singularity
        yield from self.flt(sim, proc, sg["msg"], 2)
        yield ("exit", 255 if sg["userns"] == "yes" else 1)


class C11(Check):
    id = "C11"
    lines = True

    def setup(self):
        import cwl_utils.singularity as b
        import cwl_utils.utils as c
        self.state = ModuleState(b, c)

    def gen(self, rng, tier):
        faulty = rng.random() < 0.6
        rate = rng.choice([0.2, 0.5]) if faulty else 0
        yes = rng.random() < 0.5
        nth = rng.choices([1, 2, 3, 4], [2, 3, 2, 1])[0]
        threads = []
        for t in range(nth):
            ops = []
            for k in range(rng.randint(1, 6 if nth == 1 else 4)):
                fn = rng.choice(FUNCS + ["userns", "userns"]) if rng.random() < 0.8 else "get_version"
                op = {"fn": fn}
                if rng.random() < rate:
                    if fn == "userns":
                        op["fault"] = rng.choice([{"k": "spawn", "errno": rng.choice([2, 11, 12, 24, 13])}, {"k": "hang"}, {"k": "stuck-output"},
                                                  {"k": "slow", "d": rng.choice([1.0, 30.0, 55.0])}, {"k": "flood"}, {"k": "slow", "d": 90.0}])
                    else:
                        op["fault"] = rng.choice([{"k": "spawn", "errno": rng.choice([2, 11, 12, 24, 13])}, {"k": "exit", "code": rng.choice([1, 127, 255])},
                                                  {"k": "signal", "sig": rng.choice([9, 11])}, {"k": "garbage", "text": rng.choice(BAD)}, {"k": "bytes"},
                                                  {"k": "cut", "frac": rng.choice([0.1, 0.5, 0.7, 0.9, 1.0])}, {"k": "slow", "d": rng.choice([0.5, 30.0])}, {"k": "flood"}])
                if nth == 1 and k and rng.random() < 0.12:
                    op["upgrade"] = rng.choice(OUTS)      # the program is replaced after a detection
                if rng.random() < 0.2:
                    op["sleep"] = rng.choice([0.01, 0.05, 0.3, 1.0, 70.0])
                ops.append(op)
            threads.append(ops)
        return {"threads": threads, "out": rng.choice(OUTS) if rng.random() > 0.05 else rng.choice(BAD), "userns": "yes" if yes else "no", "msg": rng.choice(YES if yes else NO),
                "cfg": {"p_split": rng.choice([0, 0.3]), "p_fast": rng.choice([1.0, 0.9, 0.6]), "p_switch": rng.choice([0.05, 0.3, 0.6]), "p_stall": rng.choice([0.0, 0.02, 0.1]),
                        "mean_gap": rng.choice([2, 4, 8, 20])}}

    def execute(self, scen, seed, replay=None, log=False):
        import cwl_utils.singularity as sg
        import cwl_utils.utils as ut
        self.state.restore()
        sim = core.Sim(seed, replay, dict(scen["cfg"], log=log, max_points=60000, max_time=5000.0, max_lines=500_000))
        m = Machine({"alias": {}, "engines": ["singularity"], "singularity": {"out": scen["out"], "userns": scen["userns"], "msg": scen["msg"]}})
        w = SWorld(m)
        w.vspawns = []
        w.all = []
        sim.world = w
        res = Result()
        hist = []
        seq = itertools.count()

        def do(ti, oi, op):
            st = sim.threads[ti]
            if op.get("sleep"):
                sim.sleep(op["sleep"])
            if op.get("upgrade"):
                sim.fired("program-replaced")
                m.singularity["out"] = op["upgrade"]
            od = st.opdata
            od.update(fault=op.get("fault"), hit=False, fired=[], op=(ti, oi))
            rec = {"ti": ti, "oi": oi, "op": op, "t0": sim.now, "p0": next(seq), "now_out": m.singularity["out"], "lat0": sim.total_lat, "st0": sim.total_stall, "n0": len(w.all)}
            hist.append(rec)
            try:
                if op["fn"] == "userns":
                    v = ut.singularity_supports_userns()
                else:
                    v = getattr(sg, op["fn"])()
                rec["out"] = "value"
                rec["v"] = copy.deepcopy(v)
            except core.SimExit:
                raise
            except BaseException as e:
                rec["out"] = "raise"
                rec["v"] = "%s: %s" % (type(e).__name__, str(e)[:200])
                rec["isexc"] = isinstance(e, Exception)
                del e
            rec["t1"] = sim.now
            rec["p1"] = next(seq)
            rec["fired"] = list(od["fired"])
            rec["lat"] = sim.total_lat - rec["lat0"] + sim.total_stall - rec["st0"]
            rec["mine"] = [p for p in w.all[rec["n0"]:] if p.meta["op"] == (ti, oi)]
            od["fault"] = None
            if op.get("fault", {}).get("k") in ("hang", "stuck-output", "slow"):
                sim.sleep(5.0)
                rec["left"] = [p for p in rec["mine"] if p.alive]
            sim.trace("op", ti, oi, rec["out"])

        sim.run([("T%d" % i, (lambda i=i, ops=ops: [do(i, k, o) for k, o in enumerate(ops)])) for i, ops in enumerate(scen["threads"])])
        self.judge(scen, sim, hist, w, res)
        res.take(sim)
        res.ops = len(hist)
        return res

    def judge(self, scen, sim, hist, w, res):
        V = res.violate
        if sim.abort_reason not in (None, "drivers-done"):
            if sim.abort_reason == "deadlock":
                V("never-ends", "deadlock in %s" % [h["op"] for h in hist if "t1" not in h])
            else:
                res.inconclusive = sim.abort_reason
        known = None       # (since which point, output text)
        probed = False
        for h in sorted((h for h in hist if "t1" in h), key=lambda h: h["p1"]):
            op = h["op"]
            name = "thread %d op %d %s (program says %r, faults %s)" % (h["ti"], h["oi"], op["fn"], h["now_out"], h["fired"])
            res.probes[h["out"]] = res.probes.get(h["out"], 0) + 1
            hard = [f for f in h["fired"] if f not in ("slow", "flood")]
            if op["fn"] == "userns":
                if h["t1"] - h["t0"] > 60 + 6 + 3 * h["lat"]:
                    V("probe-late", "%s took %.1fs" % (name, h["t1"] - h["t0"]))
                if h.get("left"):
                    V("probe-left-running", "%s left its process running" % name)
                slow = op.get("fault", {}).get("k") == "slow" and op["fault"]["d"] > 54
                if h["out"] == "raise":
                    if hard != ["spawn"]:
                        V("probe-raises", "%s raised %s" % (name, h["v"]))
                elif "spawn" in hard:
                    V("failure-swallowed", "%s could not run the program but returned %r" % (name, h["v"]))
                elif h["v"] not in (True, False):
                    V("wrong-answer", "%s returned %r" % (name, h["v"]))
                elif hard or (slow and h["fired"]):
                    if h["v"] is not False and not slow:
                        V("wrong-answer", "%s hung but the answer is %r" % (name, h["v"]))
                    if h["v"] is False:
                        probed = True
                elif h["v"] != (scen["userns"] == "yes") and not probed:
                    V("wrong-answer", "%s returned %r with the program saying %r" % (name, h["v"], scen["msg"]))
                continue
            if h["out"] == "value":
                if hard and known is None:
                    # a cut after the complete line, or another call's success, may still give the answer
                    if not [x for x in hist if x is not h and "t1" in x and x["op"]["fn"] != "userns" and x["p0"] < h["p1"]]:
                        V("failure-swallowed", "%s failed but returned %r" % (name, h["v"]))
                texts = {known[1]} if known is not None and known[0] <= h["p0"] else {x["now_out"] for x in hist if x["p0"] <= h["p1"]}
                good = []
                for t in texts:
                    try:
                        r = reference(t)[op["fn"]]
                        good.append(r)
                    except Exception:
                        pass
                val = [list(h["v"][0]), h["v"][1]] if op["fn"] == "get_version" and isinstance(h["v"], (tuple, list)) else h["v"]
                if val not in good or (op["fn"] != "get_version" and not isinstance(val, bool)):
                    V("wrong-answer", "%s returned %r, expected %r" % (name, h["v"], good))
                elif known is None:
                    known = (h["p1"], h["now_out"])
            else:
                if not h["isexc"]:
                    V("error-type", "%s raised %s" % (name, h["v"]))
                ok = True
                try:
                    reference(h["now_out"])
                except Exception:
                    ok = False
                if not hard and ok:
                    V("fails", "%s raised %s although nothing is wrong" % (name, h["v"]))
                if known is not None and known[0] <= h["p0"]:
                    V("fails", "%s raised %s although an earlier call succeeded" % (name, h["v"]))
            if known is not None and known[0] < h["p0"]:
                runs = [p for p in h["mine"] if p.meta["kind"] == "version"]
                if runs:
                    V("asked-again", "%s ran the program again after a successful detection" % name)

    def shrinks(self, scen):
        th = scen["threads"]
        for i in range(len(th)):
            if len(th) > 1:
                yield dict(scen, threads=th[:i] + th[i + 1:])
        for i in range(len(th)):
            for l in list_shrinks(th[i]):
                if l:
                    yield dict(scen, threads=th[:i] + [l] + th[i + 1:])
            for j, op in enumerate(th[i]):
                for k in ("fault", "sleep", "upgrade"):
                    if k in op:
                        yield dict(scen, threads=th[:i] + [th[i][:j] + [{a: b for a, b in op.items() if a != k}] + th[i][j + 1:]] + th[i + 1:])

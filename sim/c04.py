"""C04: finding or starting a JavaScript engine on machines with all kinds of installations and failures."""
import copy
import gc
import os
import shutil

from . import core, procs
from .base import Check, Result, list_shrinks, strict_eq
from .programs import Machine, ProgWorld, SIF_DONE, norm
from .state import ModuleState

VERS = ["v20.11.0", "v22.4.1", "v18.0.0", "v10.9.9", "v4.2.6", "v0.12.18", "v0.10.26", "v0.10.25", "v0.10.3", "v0.9.30", "v0.11.0", "v1.0.0",
        "v21.0.0-nightly20230415a1b2c3", "v22.0.0-rc.1", "v0.8.28-pre"]
GARBAGE = ["", "node: command failed", "vX.Y", "unknown"]
MINS = ["0.10.26", "0.10.26", "0.10.26", "4.2.6", "18.0.0", "0.9"]
MODES = ["absent", "eacces", "enoexec", "eval-fails", "eval-wrong", "version-fails", "version-signal"]
ENG = ["docker", "podman", "singularity", "udocker"]
NODEIMG = "node:alpine"


def vtuple(v):
    import re
    m = re.match(r"v?(\d+(?:\.\d+)*)", v.strip())
    return [int(x) for x in m.group(1).split(".")] if m else None


def usable(spec, minimum):
    """yes | old | no | odd (its version cannot be read)"""
    if spec is None or spec["mode"] != "ok":
        return "no" if spec is None or spec["mode"] in ("absent",) else "broken"
    t = vtuple(spec["v"])
    if t is None:
        return "odd"
    return "yes" if t >= [int(x) for x in minimum.split(".")] else "old"


class C04(Check):
    id = "C04"
    lines = True

    def setup(self):
        import cwl_utils.sandboxjs as a
        import cwl_utils.singularity as b
        import cwl_utils.utils as c
        self.state = ModuleState(b, c, a)

    # ---- scenarios -------------------------------------------------------------------------------
    def gen(self, rng, tier):
        alias = {}
        p_local = rng.choice([0.0, 0.3, 0.7, 1.0])
        for n in ("nodejs", "node"):
            r = rng.random()
            if r < 0.35:
                alias[n] = {"v": "", "mode": "absent"}
            elif r < 0.35 + 0.5 * p_local:
                alias[n] = {"v": rng.choice(VERS), "mode": "ok"}
            elif r < 0.9:
                alias[n] = {"v": rng.choice(["v0.10.25", "v0.9.30", "v0.8.28-pre", "v0.10.3"]), "mode": "ok"} if rng.random() < 0.5 else \
                    {"v": rng.choice(VERS), "mode": rng.choice(MODES)}
            else:
                alias[n] = {"v": rng.choice(GARBAGE), "mode": "ok"}
        engine = rng.choice(ENG + ["docker", "singularity"])
        fail = rng.choice([0, 0.3, 0.6])
        spec = {
            "alias": alias,
            "engines": sorted(set([engine] if rng.random() < 0.85 else []) | ({rng.choice(ENG)} if rng.random() < 0.3 else set())),
            "images": {e: ([NODEIMG] if rng.random() < 0.4 else []) + (["node:18", "alpine:latest"] if rng.random() < 0.3 else []) for e in ENG},
            "daemon": {engine: "down"} if engine in ("docker", "podman") and rng.random() < fail * 0.4 else {},
            "pull": {engine: [rng.choice(["fail", "killed", "race"] if engine == "singularity" else ["fail", "killed"])
                              for _ in range(rng.randint(1, 3))]} if rng.random() < fail else {},
            "run": {engine: ["fail"]} if rng.random() < fail * 0.4 else {},
            "singularity": {"out": "singularity-ce version 3.11.4", "userns": rng.choice(["yes", "yes", "no", "hang", "signal"]),
                            "yes_msg": rng.choice(["FATAL: \"/bin/sh doesn't exist in container", "ERROR : No valid /bin/sh in container",
                                                   "FATAL: exec: \"true\": executable file not found in $PATH"])},
            "pull_time": rng.choice([0.5, 3.0, 40.0]),
        }
        ops = []
        threads = rng.choice([1, 1, 1, 2, 3]) if fail == 0 else 1
        for k in range(rng.randint(1, 5)):
            op = {"engine": engine if rng.random() < 0.85 else rng.choice(ENG), "force": rng.random() < 0.2, "tok": "t%d" % k, "api": rng.choice(["eval", "eval", "new"])}
            pre = []
            if k and threads == 1 and rng.random() < 0.5:
                c = rng.random()
                if c < 0.3:
                    n = rng.choice(["nodejs", "node"])
                    pre.append(["alias", n, rng.choice([{"v": "v20.11.0", "mode": "ok"}, {"v": "", "mode": "absent"}, {"v": "v0.10.25", "mode": "ok"}])])
                elif c < 0.5:
                    pre.append(["daemon", engine, "ok"])
                elif c < 0.65:
                    pre.append(["install", engine])
                elif c < 0.9:
                    pre.append(["network", engine])
                else:
                    pre.append(["rmi", engine])
            op["pre"] = pre
            if rng.random() < fail * 0.4:
                op["fault"] = {"n": rng.randint(0, 4), "errno": rng.choice([2, 11, 12, 24])}
            ops.append(op)
        return {
            "spec": spec, "min": rng.choice(MINS), "ops": ops, "cache_env": rng.random() < 0.5,
            "sif": rng.random() < 0.35,
            "threads": threads,
            "cfg": {"p_split": 0.0, "p_fast": rng.choice([1.0, 0.9]), "p_switch": rng.choice([0.02, 0.2]), "p_stall": 0.0, "mean_gap": rng.choice([0, 60, 200])},
        }

    # ---- run -------------------------------------------------------------------------------------
    def execute(self, scen, seed, replay=None, log=False):
        from cwl_utils import sandboxjs
        from .nodehost import host
        host().reset()
        self.state.restore()
        d = os.path.join(os.environ["SIM_SCRATCH"], "c04")
        shutil.rmtree(d, ignore_errors=True)
        cwd, cache = os.path.join(d, "cwd"), os.path.join(d, "cache")
        os.makedirs(cwd)
        os.makedirs(cache)
        old = os.getcwd()
        os.chdir(cwd)
        if scen["cache_env"]:
            os.environ["CWL_SINGULARITY_CACHE"] = cache
        sif = os.path.join(cache if scen["cache_env"] else cwd, "node_alpine.sif")
        if scen["sif"]:
            with procs.o_io_open(sif, "wb") as f:
                f.write(SIF_DONE + b"node:alpine")
        try:
            return self._execute(scen, seed, replay, log, sandboxjs, sif)
        finally:
            os.environ.pop("CWL_SINGULARITY_CACHE", None)
            os.chdir(old)
            shutil.rmtree(d, ignore_errors=True)
            self.state.restore()

    def _execute(self, scen, seed, replay, log, sandboxjs, sif):
        from cwl_utils.errors import JavascriptException
        sim = core.Sim(seed, replay, dict(scen["cfg"], log=log, max_points=120000, max_time=9000.0, max_lines=1_500_000))
        m = Machine(copy.deepcopy(scen["spec"]))
        world = ProgWorld(m)
        sim.world = world
        res = Result()
        hist = []
        eng = sandboxjs.NodeJSEngine(minimum_node_version_str=scen["min"])
        static = scen["threads"] > 1

        def owner(s):
            own = s.current
            while own is not None and own.opdata is None:
                own = own.parent
            return own

        def spawn_fault(s, name, argv):
            own = owner(s)
            f = own.opdata.get("fault") if own is not None else None
            if f:
                f["n"] -= 1
                if f["n"] < 0:
                    own.opdata["fault"] = None
                    own.opdata["rec"]["fired"].append((name, f["errno"]))
                    s.fired("spawn-failure")
                    return OSError(f["errno"], "injected spawn failure", argv[0])
            return None
        world.spawn_fault = spawn_fault

        def do_op(ti, oi, op):
            st = sim.threads[ti]
            for ch in op["pre"]:
                sim.fired("environment-change")
                if ch[0] == "alias":
                    m.alias[ch[1]] = dict(ch[2])
                elif ch[0] == "daemon":
                    m.daemon[ch[1]] = ch[2]
                elif ch[0] == "install":
                    m.engines.add(ch[1])
                elif ch[0] == "network":
                    m.pull[ch[1]] = []
                    m.run[ch[1]] = []
                elif ch[0] == "rmi":
                    m.images[ch[1]] = set()
                    if ch[1] == "singularity" and os.path.exists(sif):
                        os.unlink(sif)
            e = op["engine"]
            rec = {"ti": ti, "oi": oi, "op": op, "t0": sim.now, "log0": len(m.log), "fired": [],
                   "u": {n: usable(m.alias.get(n), scen["min"]) for n in ("nodejs", "node")},
                   "installed": e in m.engines, "daemon": m.daemon.get(e, "ok"), "pull": list(m.pull.get(e) or []), "run": list(m.run.get(e) or []),
                   "have": (os.path.exists(sif) if e == "singularity" else NODEIMG in m.images.get(e, ()))}
            hist.append(rec)
            st.opdata["op"] = (ti, oi)
            st.opdata["rec"] = rec
            st.opdata["fault"] = dict(op["fault"]) if op.get("fault") else None
            n0 = len(world.engine_procs)
            proc = None
            try:
                if op["api"] == "new":
                    from importlib.resources import files
                    proc = eng.new_js_proc(files("cwl_utils").joinpath("cwlNodeEngine.js").read_text("utf-8"), op["force"], e)
                    rec["out"] = "proc"
                    # is it able to evaluate?
                    proc.stdin.write('"[1,\\"%s\\"]"\n' % op["tok"])
                    proc.stdin.flush()
                    line = proc.stdout.readline()
                    import json
                    rec["value"] = json.loads(line) if line.strip() else None
                    if not line.strip():
                        rec["out"] = "dead-proc"
                else:
                    rec["value"] = eng.eval("[1,'%s']" % op["tok"], force_docker_pull=op["force"], container_engine=e, timeout=20)
                    rec["out"] = "value"
            except core.SimExit:
                raise
            except BaseException as x:
                rec["out"] = "raise" if isinstance(x, Exception) else "bad"
                rec["exc"] = "%s: %s" % (type(x).__name__, str(x)[:200])
                rec["js"] = isinstance(x, JavascriptException)
                del x
            st.opdata["fault"] = None
            rec["t1"] = sim.now
            rec["log1"] = len(m.log)
            mine = [p for p in world.engine_procs[n0:] if p.meta["op"] == (ti, oi)]
            rec["procs"] = [(p.meta.get("via"), p.meta.get("node_version"), p.alive and p.killed_at is None, p.meta.get("evals", 0)) for p in mine]
            # the next operation needs a new process
            for p in mine:
                if p.alive:
                    p.die(9)
            sim.sleep(3.0)
            st.opdata["op"] = None
            sim.trace("op", ti, oi, rec["out"])

        def drv(ti):
            def f():
                ops = scen["ops"]
                for oi, op in enumerate(ops):
                    if oi % scen["threads"] == ti:
                        do_op(ti, oi, op)
            return f
        sim.run([("T%d" % i, drv(i)) for i in range(scen["threads"])])
        self.judge(scen, sim, m, hist, res, static)
        eng.processes_to_kill.clear()
        del eng
        gc.collect()
        res.take(sim)
        res.ops = len(hist)
        return res

    # ---- oracle ----------------------------------------------------------------------------------
    def judge(self, scen, sim, m, hist, res, static):
        V = res.violate
        if sim.abort_reason not in (None, "drivers-done"):
            if sim.abort_reason == "deadlock":
                V("never-ends", "an engine start never ends (%s): %s" % (sim.where, [h["op"] for h in hist if "t1" not in h]))
            else:
                res.inconclusive = sim.abort_reason
        fetched = False            # this engine object has successfully looked for or pulled an image already
        for h in sorted((h for h in hist if "t1" in h), key=lambda h: h["t0"]):
            op = h["op"]
            e = op["engine"]
            w = "op %d (%s via %s%s, local %s, image %s, min %s)" % (h["oi"], op["api"], e, ", forced" if op["force"] else "", h["u"],
                                                                      "present" if h["have"] else "absent", scen["min"])
            cmds = [l for l in m.log[h["log0"]:h["log1"]] if l[2] == "cmd" and not l[3].startswith("exec --userns hello") and not l[3].startswith("--version")]
            pulls = [l for l in cmds if l[3].startswith("pull")]
            ok = h["out"] in ("value", "proc")
            res.probes[h["out"]] = res.probes.get(h["out"], 0) + 1
            local = "yes" in h["u"].values()
            fault = bool(h["fired"])
            known = fetched        # before this operation
            if (h["have"] and (cmds or e == "singularity")) or any(l[2] == "pulled" and l[4] for l in m.log[h["log0"]:h["log1"]]):
                fetched = True
            # never a wrong engine or a wrong value
            if ok and not strict_eq(h["value"], [1, op["tok"]]):
                V("wrong-value", "%s gave %r" % (w, h["value"]))
            if h["out"] == "bad":
                V("error-type", "%s ended with %s" % (w, h["exc"]))
            for via, ver, alive, evals in h["procs"]:
                if evals and ok and vtuple(ver or "") is not None and vtuple(ver) < [int(x) for x in scen["min"].split(".")]:
                    V("too-old", "%s evaluated by %s %s" % (w, via, ver))
            if not ok and not static and any(alive for _, _, alive, _ in h["procs"]):
                V("left-running", "%s failed (%s) but left %d process(es) running" % (w, h.get("exc", h["out"]), sum(a for _, _, a, _ in h["procs"])))
            if static:
                # fixed installation, several threads: everything that can work does
                can = local or (h["installed"] and h["daemon"] == "ok")
                if can and not ok and (local or h["have"] or scen["spec"]["pull_time"] < 10):
                    V("usable-not-used", "%s failed with %s" % (w, h.get("exc", h["out"])))
                if not can and ok:
                    V("unexpected-success", "%s gave a value from %s" % (w, h["procs"]))
                continue
            if fault:
                runs = [l for l in m.log[h["log0"]:h["log1"]] if not l[4] and (l[2] == "run" or (l[2] == "pulled" and known))]
                if h["out"] == "dead-proc" and not runs and not (known and h["daemon"] != "ok"):
                    V("dead-process", "%s returned a process that cannot evaluate" % w)
                continue
            if local:
                if not ok:
                    V("usable-not-used", "%s failed with %s" % (w, h.get("exc", h["out"])))
                elif not any(v in ("nodejs", "node") and ev for v, _, _, ev in h["procs"]):
                    V("local-ignored", "%s was evaluated by %s" % (w, h["procs"]))
                if cmds:
                    V("local-ignored", "%s ran %s although there is a good local Node.js" % (w, cmds[0][1:4]))
                continue
            # container path
            up = h["installed"] and h["daemon"] == "ok"
            if not up:
                if ok:
                    V("unexpected-success", "%s gave a value from %s" % (w, h["procs"]))
                elif h["out"] == "dead-proc":
                    if not known:
                        V("dead-process", "%s returned a process that cannot evaluate" % w)
                elif not h["installed"] and all(v in ("no", "old") for v in h["u"].values()) and not h["js"]:
                    V("error-type", "%s has neither a good Node.js nor the container engine but raised %s" % (w, h["exc"]))
                continue
            if pulls and h["have"] and not op["force"]:
                V("needless-pull", "%s pulled the image although it is there: %s" % (w, pulls[0][3]))
            if op["force"] and not known and not pulls:
                V("force-ignored", "%s did not pull" % w)
            if not h["have"] and not known and not pulls:
                V("not-pulled", "%s did not pull the absent image" % w)
            if e == "singularity" and h["have"] and any(l[3].startswith("exec") and "docker://" in l[3] for l in cmds):
                V("needless-pull", "%s fetches the image again although it is cached" % w)
            if any(l[2] == "bad-usage" for l in m.log[h["log0"]:h["log1"]]):
                V("usable-not-used", "%s ran an invalid command: %s" % (w, [l[3] for l in m.log[h["log0"]:h["log1"]] if l[2] == "bad-usage"]))
            will_pull = bool(pulls) or not h["have"]
            pull_out = h["pull"][0] if h["pull"] else "ok"
            run_out = h["run"][0] if h["run"] else "ok"
            if run_out == "ok" and (not will_pull or pull_out in ("ok", "race")):
                slow = not pulls and not h["have"] and scen["spec"]["pull_time"] > 10     # `run` fetches it within the evaluation
                if not ok and not slow:
                    V("usable-not-used", "%s failed with %s" % (w, h.get("exc", h["out"])))
                elif ok and not any(v == e and ev for v, _, _, ev in h["procs"]):
                    V("unexpected-success", "%s was evaluated by %s" % (w, h["procs"]))
            elif run_out == "ok" and pulls and pull_out != "ok":
                if h["out"] == "dead-proc":
                    V("dead-process", "%s returned a process that cannot evaluate after a failed pull" % w)

    def shrinks(self, scen):
        for l in list_shrinks(scen["ops"]):
            if l:
                yield dict(scen, ops=l)
        if scen["threads"] > 1:
            yield dict(scen, threads=1)
        for j, op in enumerate(scen["ops"]):
            def rep(new):
                return dict(scen, ops=scen["ops"][:j] + [new] + scen["ops"][j + 1:])
            if op.get("fault"):
                yield rep({k: v for k, v in op.items() if k != "fault"})
            if op["pre"]:
                yield rep(dict(op, pre=[]))
            if op["force"]:
                yield rep(dict(op, force=False))
        sp = scen["spec"]
        for k in ("pull", "run", "daemon"):
            if sp[k]:
                yield dict(scen, spec=dict(sp, **{k: {}}))
        for n in ("nodejs", "node"):
            if sp["alias"][n]["mode"] != "absent":
                yield dict(scen, spec=dict(sp, alias=dict(sp["alias"], **{n: {"v": "", "mode": "absent"}})))
        if scen["cfg"]["mean_gap"]:
            yield dict(scen, cfg=dict(scen["cfg"], mean_gap=0))

"""C01-C03: threads evaluating JavaScript through the real engine driver and the real engine scripts."""
import copy
import gc
import json
import random

from . import core, procs
from .base import Check, Result, jd, list_shrinks, strict_eq

STD_WORLD_VERSION = "v20.11.0"
CONTEXTS = {
    "a": "({tag:'ctx-a', add:function(x){return x+1000;}, list:[1,2,3]})",
    "b": "({tag:'ctx-b', add:function(x){return x+2000;}, list:['\u00e9','\u20ac']})",
    "c": "({tag:'ctx-c', add:function(x){return x*2;}, list:[]})",
}


def engine_kind(proc):
    return proc.meta.get("engine")


class JSWorld(procs.World):
    """node/nodejs installed and healthy unless told otherwise."""

    def __init__(self, scen):
        super().__init__()
        self.scen = scen
        inst = scen.get("world", {"nodejs": STD_WORLD_VERSION, "node": STD_WORLD_VERSION})
        for name, ver in inst.items():
            self.programs[name] = self.make_node(name, ver)
        self.engine_procs = []

    def make_node(self, name, version):
        from .nodehost import node_engine

        def prog(sim, proc, argv):
            a = argv[1:]
            if a and a[0] in ("-v", "--version"):
                yield ("write", 1, (version + "\n").encode())
                yield ("exit", 0)
            if len(a) >= 2 and a[0] in ("-e", "--eval", "-pe", "-p", "--print"):
                code = a[1]
                if a[0] in ("-p", "-pe", "--print"):
                    code = "process.stdout.write(String(" + code + ")+'\\n')"
                yield from node_engine(sim, proc, code, version)
            yield ("exit", 9)
        return prog

    def started(self, s, proc):
        cur = s.current
        own = cur
        while own is not None and own.opdata is None:
            own = own.parent
        proc.meta["owner"] = own.id if own is not None else None
        a = proc.args
        proc.meta["engine"] = any("process.stdin" in x for x in a)
        proc.meta["writers"] = set()
        proc.meta["in_op"] = own.opdata.get("op") if own is not None else None
        if proc.meta["engine"]:
            proc.meta["ordinal"] = len(self.engine_procs)
            self.engine_procs.append(proc)
            if own is not None:
                own.opdata.setdefault("engines", []).append(proc)
            if isinstance(proc.stdin, procs.SimPipe):
                inner = proc.stdin.on_data

                def on_data(p, inner=inner, proc=proc, s=s):
                    t = s.current
                    o = t
                    while o is not None and o.opdata is None:
                        o = o.parent
                    proc.meta["written_at"] = s.now
                    proc.meta["writers"].add(o.id if o is not None else -1)
                    inner(p)
                proc.stdin.on_data = on_data


# ---- expressions ---------------------------------------------------------------------------------
def uni(rng):
    return rng.choice(["\u00e9", "\u20ac", "\U0001F600", "\u2028", "a\u0301", "\u4e2d\u6587", "\ud83d", "\x00\x01", "\\", "\"", "'", "\n", "\t",
                       "r1cepzbhUTxtykz5XTC4", "r1cepzbhUTxtykz5XTC4\n", "$(x)", "\u007f", "\ufeff"])


def js_lit(s):
    return json.dumps(s).replace("\u2028", "\\u2028").replace("\u2029", "\\u2029")


def gen_expr(rng, tok, big):
    """Returns dict(expr, lib, cat) ; cat: value | error | hang | exit"""
    r = rng.random()
    t = js_lit(tok)
    lib = ""
    if r < 0.12:
        a, b, c = rng.randint(-10**6, 10**6), rng.randint(-10**4, 10**4), rng.randint(0, 10**9)
        e = rng.choice(["(%d*%d+%d)", "{return %d*%d+%d;}", "([%d,%d,%d])"]) % (a, b, c)
    elif r < 0.22:
        n = rng.randint(1, 8)
        s = "".join(uni(rng) for _ in range(n))
        e = rng.choice(["(%s+%s)", "{var a=%s;var b=%s;return a+b;}", "({k:%s,v:%s})"]) % (t, js_lit(s))
    elif r < 0.34:
        size = rng.choice([10, 1000, 4073, 4074, 4075, 4076, 4095, 4096, 4097, 8191, 9000, 20000])
        if big and rng.random() < 0.35:
            size = rng.choice([65535, 65536, 70000, 130000, 300000])
        ch = rng.choice(["x", "\u00e9", "\u20ac", "\U0001F600", "\\u0007", "\""])
        e = "{var s=%s; while(s.length<%d) s+=s; return %s+s.substr(0,%d);}" % (js_lit(ch * 3), size, t, max(1, size - rng.randint(0, 3)))
    elif r < 0.42:
        e = rng.choice(["({a:[1,2,{b:%s}],c:null})", "{return {a:%s,n:[true,false,null,1.5]};}", "([%s,[[]],{}])",
                        "{return JSON.parse(JSON.stringify({z:%s,y:[0.1,1e21,-7e-7]}));}"]) % t
    elif r < 0.50:
        e = rng.choice(["(null)", "(true)", "(false)", "(0)", '("")', "([])", "({})", "(1.7976931348623157e+308)", "(5e-324)", "(-0.1)",
                        "(0.1+0.2)", "(NaN)", "(123456789012345680000)", "(1e22)", "(9007199254740993)"])
    elif r < 0.58:
        k = rng.randint(1, 9999)
        lib = rng.choice(["function helper(x){return x+%d;}", "var base=%d; function helper(x){return base+x;}"]) % k
        if rng.random() < 0.4:
            lib = "var inputs = %s;\n" % json.dumps({"f": tok, "n": k}) + lib
            e = "(inputs.f + helper(inputs.n))"
        else:
            e = "(helper(%d)+%s)" % (rng.randint(0, 99), t)
    elif r < 0.64:
        n = rng.choice([1000, 4000, 5000, 12000, 70000 if big else 9000, 140000 if big else 5000])
        pad = rng.choice(["x", "\u00e9"]) * n
        e = "{/*%s*/return %s+%d;}" % (pad, t, n)
    elif r < 0.70:
        e = rng.choice(["{Object.prototype.leak=%s;return Object.prototype.leak;}", "{Array.prototype.map=null;return %s;}",
                        "{return [typeof leak,%s,({}).leak===undefined];}", "{return [[1,2].map(function(x){return x*2}),%s];}",
                        "{return typeof require+typeof process+%s;}"]) % t
    elif r < 0.90:
        cat = rng.random()
        if cat < 0.55:
            e = rng.choice(['{throw new Error(%s);}', "(undefinedName+%s)", "{retur %s;}", "(%s", "{var o={a:%s};o.o=o;return o;}",
                            "{return undefined;/*%s*/}", "{return function(){return %s;};}", "{throw %s+'\\nr1cepzbhUTxtykz5XTC4';}",
                            "{throw null;/*%s*/}", "{undeclared=%s;return 1;}", "{throw {toString:function(){throw %s}};}",
                            "{var s='e';while(s.length<9000)s+=s;throw new Error(s+%s);}", "{return 1;}}/*%s*/",
                            "{return 10n**5n; /*%s*/}"]) % t
        else:
            e = "({a:%s}.b.c)" % t
        return {"expr": e, "lib": lib, "cat": "error"}
    else:
        e = "(%s)" % t
    return {"expr": e, "lib": lib, "cat": "value"}


def gen_ctx_expr(rng, tok):
    t = js_lit(tok)
    if rng.random() < 0.15:
        return {"expr": rng.choice(["nosuch+%s", "(function(){throw new Error(%s)})()", "(%s"]) % t, "cat": "error"}
    return {"expr": rng.choice(["tag+%s", "[tag,add(5),%s]", "({l:list,t:%s,g:tag})", "(function(){return [%s,add(1),tag];})()",
                                "[%s, typeof add, list.length, tag]"]) % t, "cat": "value"}


def script_of(op):
    if op["kind"] == "context":
        return op["expr"]
    e = op["expr"]
    inner = e if len(e) > 1 and e[0] == "{" else "{return (%s);}" % e
    return '"use strict";\n%s\n(function(){%s})()' % (op.get("lib", ""), inner)


def reference(op):
    """What the expression itself evaluates to, from a fresh V8 context: ("value", v) or ("error",)."""
    from .nodehost import host
    if op["cat"] in ("hang", "exit"):
        return ("error",)
    r = host().ref(script_of(op), CONTEXTS[op["ctx"]] if op["kind"] == "context" else None)
    if "v" in r:
        return ("value", json.loads(r["v"]))
    return ("error",)


class JSBase(Check):
    lines = True
    profile = {}
    wanted = ()

    # ---- generation ------------------------------------------------------------------------------
    def gen(self, rng, tier):
        p = self.profile
        nth = rng.choices([1, 2, 3], p.get("threads", [5, 4, 2]))[0]
        faulty = rng.random() < p.get("faulty", 0.65)
        kinds_on = {k for k in ("crash", "exit0", "stall", "ki", "idlekill", "hang", "slow", "exitscript", "spawnfail")
                    if rng.random() < p.get("kind_p", 0.5)} if faulty else set()
        flav = rng.choice(p.get("flavours", [["plain"], ["plain", "console"], ["plain", "context"], ["plain", "console", "context"], ["context"]]))
        big = rng.random() < 0.12
        threads = []
        n = 0
        for t in range(nth):
            ops = []
            for k in range(rng.randint(1, p.get("maxops", 7))):
                n += 1
                tok = "u%d.%d" % (n, rng.randint(0, 10**6))
                kind = rng.choice(flav)
                if kind == "context":
                    op = {"op": "eval", "kind": kind, "ctx": rng.choice("abc"), **gen_ctx_expr(rng, tok)}
                else:
                    op = {"op": "eval", "kind": kind, **gen_expr(rng, tok, big)}
                if kind == "console" and rng.random() < 0.6:
                    noise = rng.choice(["console.log('hello %s');", "console.error({a:1},'%s');", "for(var q=0;q<200;q++)console.log(q,'%s');",
                                        "console.log('r1cepzbhUTxtykz5XTC4 %s');", "console.log('\\u20ac\\u20ac %s');"]) % tok
                    op["lib"] = op.get("lib", "") + noise
                op["timeout"] = rng.choice([8, 15, 20, 20])
                f = rng.random()
                if "hang" in kinds_on and f < 0.10:
                    op.update(expr="{while(true){/*SIMHANG*/}}" if kind != "context" else "(function(){while(true){/*SIMHANG*/}})()",
                              cat="hang", timeout=rng.choice([1, 2, 5, 20]))
                elif "exitscript" in kinds_on and f < 0.16:
                    op.update(expr="(%s /*SIMEXIT %d*/)" % (js_lit(tok), rng.choice([0, 0, 1, 7])), cat="exit")
                elif "slow" in kinds_on and f < 0.30 and op["cat"] == "value":
                    frac = rng.choice([0.2, 0.5, 0.7, 0.7, 0.995, 1.0, 1.005, 1.5])
                    op["timeout"] = rng.choice([1, 3, 20])
                    c = round(frac * op["timeout"], 4)
                    op["slow"] = c
                    op["expr"] = op["expr"][:-1] + "/*SIMSLOW %s*/" % c + op["expr"][-1]
                if faulty and rng.random() < p.get("fault_rate", 0.35):
                    opts = []
                    if "crash" in kinds_on:
                        opts += [{"f": "crash", "n": rng.randint(0, 6), "st": rng.choice([9, 11, 15, 6, 1])}]
                    if "exit0" in kinds_on:
                        opts += [{"f": "crash", "n": rng.randint(0, 6), "st": rng.choice([0, 0, -1, -134])}]
                    if "stall" in kinds_on:
                        to = op["timeout"]
                        opts += [{"f": "stall", "n": rng.randint(0, 5), "d": rng.choice([0.3, 2.0, to * 0.5, to - 0.01, to + 0.001, to + 0.05, to + 4.0])}]
                    if "ki" in kinds_on and t == 0:
                        opts += [{"f": "ki", "n": rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 14, 20])}]
                    if "spawnfail" in kinds_on:
                        opts += [{"f": "spawnfail", "n": rng.randint(0, 3), "errno": rng.choice([2, 11, 12, 24])}]
                    if opts:
                        op["fault"] = rng.choice(opts)
                ops.append(op)
                if "idlekill" in kinds_on and rng.random() < 0.15:
                    ops.append({"op": "idlekill", "st": rng.choice([9, 0, -3]), "wait": rng.choice([0.5, 0.5, 3.0])})
                if rng.random() < 0.08:
                    ops.append({"op": "sleep", "d": rng.choice([0.001, 0.3, 25.0])})
            threads.append(ops)
        return {
            "threads": threads,
            "engine_api": rng.choice(["object", "object", "default"]),
            "dispose": rng.random() < 0.8,
            "redo": rng.random() < p.get("redo", 0.1),
            "cfg": {
                "p_split": rng.choice([0.0, 0.0, 0.1, 0.4]),
                "p_fast": rng.choice([1.0, 0.98, 0.9, 0.7]),
                "p_switch": rng.choice([0.02, 0.1, 0.4]),
                "p_stall": rng.choice([0.0, 0.0, 0.01, 0.05]) if faulty else 0.0,
                "mean_gap": rng.choice([0, 15, 60, 200]),
            },
        }

    # ---- execution -------------------------------------------------------------------------------
    def execute(self, scen, seed, replay=None, log=False):
        from cwl_utils import sandboxjs
        from .nodehost import host
        host().reset()
        refs = {}
        for ti, ops in enumerate(scen["threads"]):
            for oi, op in enumerate(ops):
                if op["op"] == "eval":
                    refs[ti, oi] = self.reference(scen, op)
        sim = core.Sim(seed, replay, dict(scen["cfg"], log=log, max_points=120000, max_time=6000.0, max_lines=1_500_000))
        world = JSWorld(scen)
        sim.world = world
        res = Result()
        hist = []
        V = res.violate

        def step_hook(proc):
            own = proc.meta.get("owner")
            if own is None or not proc.meta.get("engine"):
                return None
            st = sim.threads[own]
            f = st.opdata.get("fault")
            if not f or f["f"] not in ("crash", "stall") or st.opdata.get("op") is None:
                return None
            f["n"] -= 1
            if f["n"] >= 0:
                return None
            st.opdata["fault"] = None
            st.opdata["fired"].append((f["f"], sim.now))
            if f["f"] == "crash":
                sim.fired("engine-signal-death" if f["st"] > 0 else "engine-exit-%d" % -f["st"])
                return ("die", f["st"])
            sim.fired("engine-stall")
            st.opdata["stall"] += f["d"]
            st.opdata["stall_until"] = sim.now + f["d"]
            return ("stall", f["d"])
        sim.step_hook = step_hook

        def spawn_fault(s, name, argv):
            cur = s.current
            own = cur
            while own is not None and own.opdata is None:
                own = own.parent
            if own is None:
                return None
            f = own.opdata.get("fault")
            if f and f["f"] == "spawnfail":
                f["n"] -= 1
                if f["n"] < 0:
                    own.opdata["fault"] = None
                    own.opdata["fired"].append(("spawnfail", s.now))
                    s.fired("spawn-failure")
                    return OSError(f["errno"], "injected spawn failure", argv[0])
            return None
        world.spawn_fault = spawn_fault

        holder = {}

        def do_op(ti, oi, op):
            st = sim.threads[ti]
            od = st.opdata
            rec = {"ti": ti, "oi": oi, "op": op, "t0": sim.now, "stall0": sim.total_stall, "lat0": sim.total_lat}
            hist.append(rec)
            if op["op"] == "sleep":
                sim.sleep(op["d"])
                rec["t1"] = sim.now
                return
            if op["op"] == "idlekill":
                for p in od.get("engines", []):
                    if p.alive:
                        sim.fired("idle-engine-death")
                        p.die(op["st"])
                        od["idled"] = True
                sim.sleep(op["wait"])
                rec["t1"] = sim.now
                return
            od["op"] = oi
            od["fault"] = copy.deepcopy(op.get("fault"))
            od["fired"] = rec["fired"] = []
            od["stall"] = max(0.0, od.get("stall_until", 0.0) - sim.now)   # an engine may still be stalled
            ki = op.get("fault") if op.get("fault", {}).get("f") == "ki" else None
            st.ki_at = ki["n"] if ki else None
            rec["dying"] = any((not p.alive and not p.reaped and p.reap_at > sim.now) or (p.alive and p.killed_at is not None)
                               for p in od.get("engines", []))
            rec["eng0"] = [p for p in od.get("engines", [])]
            try:
                try:
                    self.evaluate(scen, op, holder["engine"], rec)
                finally:
                    st.ki_at = None
                    od["op"] = None
                    od["fault"] = None
            except core.SimExit:
                raise
            except KeyboardInterrupt:
                rec["out"] = "interrupt"
                rec["exc"] = "KeyboardInterrupt"
            except BaseException as e:
                from cwl_utils.errors import JavascriptException, WorkflowException
                rec["out"] = "raise"
                rec["exc"] = "%s: %s" % (type(e).__name__, str(e)[:300])
                rec["etype"] = type(e).__name__
                rec["iswf"] = isinstance(e, WorkflowException)
                rec["isjs"] = isinstance(e, JavascriptException)
                m = " ".join(str(a) for a in e.args)[:200].lower()
                rec["timeoutmsg"] = "killed after" in m or "timed out" in m or "timeout" in m
                del e
            rec["t1"] = sim.now
            rec["stalls"] = sim.total_stall - rec["stall0"]
            rec["estall"] = od["stall"]
            rec["lat"] = sim.total_lat - rec["lat0"]
            rec["engs"] = [p for p in od.get("engines", []) if p.started_at >= rec["t0"] or p.died_at is None or p.died_at >= rec["t0"]]
            rec["done_at"] = max([p.meta.get("answered_at", 0.0) for p in rec["engs"] if p.meta.get("asked_at", 0.0) >= rec["t0"]
                                  and p.meta.get("answered_at", 0.0) >= p.meta["asked_at"]] or [0.0])
            rec["deaths"] = [p.died_at for p in rec["engs"] if p.died_at is not None and p.died_at >= rec["t0"] and not p.by_kill
                             and p.meta.get("written_at", 0.0) >= rec["t0"]
                             and not any(q.started_at >= p.died_at for q in rec["engs"])]
            sim.trace("op", ti, oi, rec["out"])

        def body(ti, ops):
            def f():
                for oi, op in enumerate(ops):
                    do_op(ti, oi, op)
            return f

        def main0():
            e = sandboxjs.NodeJSEngine()
            if scen["engine_api"] == "default":
                sandboxjs.set_js_engine(e)
            holder["engine"] = e

        base = sandboxjs.get_js_engine()
        state = {"left": len(scen["threads"]), "disposed": None}

        def wrap(ti, ops):
            b = body(ti, ops)

            def f():
                if ti == 0:
                    main0()
                else:
                    sim.block(lambda: "engine" in holder, None, "wait-engine")
                b()
                state["left"] -= 1
                if ti == 0:
                    sim.block(lambda: state["left"] == 0, None, "wait-others")
                    if scen.get("dispose"):
                        sandboxjs.set_js_engine(base)
                        state["t_disp"] = sim.now
                        state["alive_at_disp"] = sum(p.alive for p in world.engine_procs)
                        holder.pop("engine")
                        gc.collect()
                        state["disposed"] = sim.now
                        sim.sleep(2.0)
                        if scen.get("redo"):
                            # a new engine object on the same thread works as well
                            holder["engine"] = sandboxjs.NodeJSEngine()
                            if scen["engine_api"] == "default":
                                sandboxjs.set_js_engine(holder["engine"])
                            op = {"op": "eval", "kind": "plain", "expr": "(\"again\"+1)", "cat": "value", "timeout": 20}
                            refs[0, 10**6] = ("value", "again1")
                            do_op(0, 10**6, op)
                            sandboxjs.set_js_engine(base)
                            holder.pop("engine")
                            gc.collect()
                            sim.sleep(2.0)
                            state["redone"] = True
            return f

        try:
            sim.run([("T%d" % i, wrap(i, ops)) for i, ops in enumerate(scen["threads"])])
        finally:
            sandboxjs.set_js_engine(base)
        holder.clear()
        self.judge(scen, sim, world, hist, refs, state, res)
        res.take(sim)
        res.ops = len(hist)
        res.nontrivial = any(h["op"]["op"] == "eval" for h in hist)
        res.violations = [v for v in res.violations if v["cls"] in self.wanted]
        return res

    def reference(self, scen, op):
        return reference(op)

    def evaluate(self, scen, op, eng, rec):
        from cwl_utils import sandboxjs
        if op["kind"] == "context":
            fn = eng.exec_js_process if scen["engine_api"] == "object" else sandboxjs.exec_js_process
            rc, out, err = fn(script_of(op), timeout=op["timeout"], context=CONTEXTS[op["ctx"]])
            rec["rc"] = rc
            if rc == 0:
                try:
                    rec["value"] = json.loads(out)
                    rec["out"] = "value"
                except ValueError:
                    rec["out"] = "raise"
                    rec["exc"] = "no value in output %r" % out[:60]
            else:
                rec["out"] = "raise"
                rec["exc"] = "returncode %s: %s" % (rc, err[-100:])
                rec["timeoutmsg"] = rc == -1
        else:
            e = eng if scen["engine_api"] == "object" else sandboxjs.get_js_engine()
            rec["value"] = e.eval(op["expr"], op.get("lib", ""), timeout=op["timeout"], js_console=op["kind"] == "console")
            rec["out"] = "value"

    # ---- oracle ----------------------------------------------------------------------------------
    def judge(self, scen, sim, world, hist, refs, state, res):
        V = res.violate
        stuck = sim.abort_reason not in (None, "drivers-done")
        open_ops = [h for h in hist if "t1" not in h]
        if stuck:
            for h in open_ops:
                if h["op"]["op"] == "eval" and sim.now - h["t0"] > h["op"]["timeout"] + 60:
                    V("never-ends", "evaluation %s did not end: %s, run stopped by %s at +%.1fs (timeout %s)" % (
                        where(h), sim.where, sim.abort_reason, sim.now - h["t0"], h["op"]["timeout"]))
                    break
            else:
                if sim.abort_reason == "deadlock" and open_ops:
                    V("never-ends", "deadlock with open operations %s" % ([where(h) for h in open_ops],))
                elif sim.abort_reason == "deadlock" or (state["left"] == 0 and state["disposed"] is None and scen.get("dispose")):
                    V("dispose-never-ends", "disposing of the engine did not end (%s)" % sim.abort_reason)
                else:
                    res.inconclusive = sim.abort_reason
        for h in hist:
            op = h["op"]
            if op["op"] != "eval" or "t1" not in h:
                continue
            ref = refs[h["ti"], h["oi"]]
            el = h["t1"] - h["t0"]
            to = op["timeout"]
            w = where(h)
            slack = h["stalls"] * 3 + 1e-6
            disturbed = bool(h["fired"]) or h["out"] == "interrupt" or h["dying"] or bool(h["deaths"])
            # -- value integrity
            if h["out"] == "value":
                res.probes["value"] = res.probes.get("value", 0) + 1
                if ref[0] != "value":
                    V("value-for-error", "%s has no value but the evaluation returned %r (%s)" % (w, short(h["value"]), hsum(hist, h)))
                elif not strict_eq(h["value"], ref[1]):
                    V("wrong-value", "%s must give %r but returned %r (%s)" % (w, short(ref[1]), short(h["value"]), hsum(hist, h)))
                    if op["kind"] == "context":
                        V("wrong-context", "%s evaluated in the wrong context: %r" % (w, short(h["value"])))
            else:
                res.probes["raised"] = res.probes.get("raised", 0) + 1
                if h["out"] == "interrupt" and not (op.get("fault") or {}).get("f") == "ki":
                    V("spurious-error", "%s raised KeyboardInterrupt without an interrupt" % w)
                if h["out"] == "raise" and ref[0] == "value" and not disturbed:
                    # was it in time?
                    in_time = h["done_at"] >= h["t0"] and h["done_at"] - h["t0"] < to - 0.2 - slack
                    could_time_out = (op.get("slow", 0) + h["estall"] + h["stalls"] + sum_lat(h)) >= to - 0.3
                    if not could_time_out or in_time:
                        clean = not any(x is not h and x["op"]["op"] == "eval" and x["ti"] == h["ti"] and x["oi"] < h["oi"] and (
                            x["fired"] or x["out"] != "value" or x["op"].get("slow", 0) > x["op"]["timeout"] * 0.9) for x in hist if "t1" in x) \
                            and not any(x["op"]["op"] == "idlekill" for x in hist)
                        V("healthy-fails" if clean else "no-recovery",
                          "%s has a value and nothing went wrong during it, but it raised %s after %.3fs (%s)" % (w, h["exc"], el, hsum(hist, h)))
            # -- time
            bound = to + 3.0 + slack + 2 * h["lat"]
            if h["engs"] and any(p.started_at >= h["t0"] for p in h["engs"]):
                bound += 10.0
            elif not h["eng0"]:
                bound += 10.0
            if el > bound:
                V("late", "%s took %.3fs with a timeout of %s (%s)" % (w, el, to, hsum(hist, h)))
            if h["out"] == "raise" and h.get("timeoutmsg") and el < to - 1e-3:
                V("early-timeout", "%s was reported as timed out after %.4fs, before its timeout %s" % (w, el, to))
            hung = op["cat"] == "hang" and not h["fired"] and not h["dying"] and not h["deaths"]
            if hung and h["out"] == "raise" and not h.get("timeoutmsg"):
                V("hang-not-timeout", "%s never terminates but ended with %s after %.3fs instead of the timeout error" % (w, h["exc"], el))
            if h["deaths"] and h["out"] == "raise":
                d = min(h["deaths"])
                if h["t1"] - d > 3.0 + slack and to - (d - h["t0"]) > 4.0:
                    # a replacement process may have been started legitimately; then it must be quick as well
                    V("crash-not-prompt", "%s: the engine process died at +%.3fs but the evaluation only ended at +%.3fs (timeout %s): %s" % (
                        w, d - h["t0"], el, to, h["exc"]))
                if h.get("timeoutmsg") and to - (d - h["t0"]) > 1.0 + slack:
                    V("crash-as-timeout", "%s: the engine process died at +%.3fs; reported as a timeout at +%.3fs" % (w, d - h["t0"], el))
            if h["out"] == "raise" and h.get("etype") and op["kind"] != "context" and not h["fired"] and not h["dying"]:
                if not h["isjs"] and (ref[0] == "error"):
                    V("error-type", "%s failed with %s instead of a JavaScript exception" % (w, h["exc"]))
        # -- process life cycle
        for p in world.engine_procs:
            wr = p.meta["writers"]
            if len(wr) > 1 or (wr and wr != {p.meta["owner"]}):
                V("shared-process", "engine process #%d started by thread %s was written to by threads %s" % (p.meta["ordinal"], p.meta["owner"], sorted(wr)))
        for ti, ops in enumerate(scen["threads"]):
            mine = [h for h in hist if h["ti"] == ti and h["op"]["op"] == "eval" and "t1" in h and h["oi"] < 10**6]
            if not mine:
                continue
            ok = all(not h["fired"] and not h["dying"] and not h["deaths"] and h["out"] != "interrupt" and h["op"]["cat"] in ("value", "error")
                     and h["op"].get("slow", 0) < 0.6 * h["op"]["timeout"] and h["stalls"] + h["estall"] + sum_lat(h) < 0.3 * h["op"]["timeout"] for h in mine)
            if ok and not any(o["op"] == "idlekill" for o in ops) and not any(h["op"]["op"] == "idlekill" for h in hist):
                flavours = {(h["op"]["kind"], h["op"].get("ctx")) for h in mine}
                started = [p for p in world.engine_procs if p.meta["owner"] == ti and p.meta["in_op"] != 10**6]
                if len(started) > len(flavours):
                    V("not-reused", "thread %d needed %d engine flavours but %d engine processes were started" % (ti, len(flavours), len(started)))
                res.probes["reuse-checked"] = res.probes.get("reuse-checked", 0) + 1
        if state.get("disposed") is not None and (not scen.get("redo") or state.get("redone")) and not stuck:
            left = [p for p in world.engine_procs if p.alive and not p.meta.get("after")]
            res.probes["dispose-checked"] = res.probes.get("dispose-checked", 0) + 1
            if left:
                V("leaked", "%d engine process(es) still running after the engine was disposed of: %s" % (
                    len(left), ["#%d thread %s hung=%s" % (p.meta["ordinal"], p.meta["owner"], p.meta.get("hung", False)) for p in left]))
            if state["disposed"] - state["t_disp"] > 15.0 * max(1, state["alive_at_disp"]) + 5 + sim.total_stall * 3:
                V("dispose-slow", "disposing took %.1fs with %d live processes" % (state["disposed"] - state["t_disp"], state["alive_at_disp"]))

    # ---- shrinking -------------------------------------------------------------------------------
    def shrinks(self, scen):
        th = scen["threads"]
        for i in range(len(th)):
            if len(th) > 1:
                yield dict(scen, threads=th[:i] + th[i + 1:])
        for i in range(len(th)):
            for l in list_shrinks(th[i]):
                if l or len(th) > 1:
                    yield dict(scen, threads=th[:i] + [l] + th[i + 1:])
        for i in range(len(th)):
            for j, op in enumerate(th[i]):
                def rep(new):
                    return dict(scen, threads=th[:i] + [th[i][:j] + [new] + th[i][j + 1:]] + th[i + 1:])
                if "fault" in op:
                    yield rep({k: v for k, v in op.items() if k != "fault"})
                    f = op["fault"]
                    if f.get("n", 0) > 0:
                        yield rep(dict(op, fault=dict(f, n=0)))
                        yield rep(dict(op, fault=dict(f, n=f["n"] - 1)))
                if op.get("op") == "eval" and op["kind"] == "console":
                    yield rep(dict(op, kind="plain", lib=""))
                if op.get("op") == "eval" and op["cat"] == "value" and op["kind"] != "context" and len(op["expr"]) > 12:
                    yield rep(dict(op, expr='("s%d")' % j, lib="", slow=0))
                if op.get("op") == "eval" and op["cat"] == "error" and op["kind"] != "context" and op["expr"] != "{throw 1;}":
                    yield rep(dict(op, expr="{throw 1;}", lib=""))
                if op.get("lib"):
                    yield rep(dict(op, lib=""))
        if scen.get("redo"):
            yield dict(scen, redo=False)
        if scen.get("dispose"):
            yield dict(scen, dispose=False, redo=False)
        if scen["engine_api"] != "object":
            yield dict(scen, engine_api="object")
        c = scen["cfg"]
        for k in ("p_split", "p_stall", "mean_gap"):
            if c[k]:
                yield dict(scen, cfg=dict(c, **{k: 0}))


def sum_lat(h):
    """Injected latency and program run time during the operation (all threads: an upper bound)."""
    return h["lat"] + 0.05


def where(h):
    op = h["op"]
    return "thread %d op %d %s `%s`" % (h["ti"], h["oi"], op["kind"] if op["op"] == "eval" else op["op"], short(op.get("expr", "")))


def short(v):
    s = v if isinstance(v, str) else jd(v)
    return s if len(s) < 90 else s[:60] + "...(%d chars)" % len(s)


def hsum(hist, h):
    prev = [x for x in hist if x["ti"] == h["ti"] and x["oi"] < h["oi"]][-2:]
    return "faults in it: %s; before it on this thread: %s" % (
        [f[0] for f in h["fired"]], ["%s->%s%s" % (short(x["op"].get("expr", x["op"]["op"])), x.get("out"), [f[0] for f in x.get("fired", [])]) for x in prev])


class C01(JSBase):
    id = "C01"
    wanted = ("wrong-value", "value-for-error", "healthy-fails", "spurious-error")
    profile = {"faulty": 0.6}


class C02(JSBase):
    id = "C02"
    wanted = ("never-ends", "late", "early-timeout", "hang-not-timeout", "crash-not-prompt", "crash-as-timeout", "no-recovery", "healthy-fails", "error-type")
    profile = {"faulty": 0.85, "threads": [6, 3, 1], "kind_p": 0.6, "fault_rate": 0.4}


class C03(JSBase):
    id = "C03"
    wanted = ("shared-process", "not-reused", "leaked", "wrong-context", "dispose-slow", "dispose-never-ends", "no-recovery")
    profile = {"faulty": 0.5, "threads": [3, 4, 3], "redo": 0.3,
               "flavours": [["plain"], ["plain", "console"], ["plain", "context"], ["plain", "console", "context"], ["context"]]}

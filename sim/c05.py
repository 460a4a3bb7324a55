"""C05: evaluating whole CWL fields (text, escapes, references, JavaScript) over failing engines, synchronous and asynchronous, in threads."""
import asyncio
import copy
import json

from .base import list_shrinks, strict_eq
from .procs import S
from .js import JSBase, js_lit, reference as js_reference, short, sum_lat, uni

OLD = ("v1.0", "v1.1")


# ---- event loops of simulated threads ------------------------------------------------------------
class SimSelector:
    def __init__(self):
        self.woken = False

    def select(self, timeout=None):
        s = S()
        if timeout is not None and timeout <= 0:
            s.point("loop")
        elif timeout is None:
            s.block(lambda: self.woken, None, "loop")
        else:
            s.block(lambda: self.woken, timeout, "loop")
        self.woken = False
        return []

    def close(self):
        pass


class SimLoop(asyncio.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self._selector = SimSelector()
        self._clock_resolution = 1e-9

    def time(self):
        return S().now

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        self._selector.woken = True

    def __del__(self):
        pass


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    _loop_factory = SimLoop


# ---- engines a user could provide ------------------------------------------------------------------
def make_engines():
    from cwl_utils.sandboxjs import JSEngine

    class Sync(JSEngine):
        def __init__(self, eng):
            self.eng = eng

        def eval(self, scan, jslib="", **kw):
            return self.eng.eval(scan, jslib, **kw)

        def regex_eval(self, parsed_string, remaining_string, current_value, **kw):
            return self.eng.regex_eval(parsed_string, remaining_string, current_value, **kw)

    class Async(JSEngine):
        def __init__(self, eng, delays):
            self.eng, self.delays = eng, delays

        async def wait(self):
            for d in self.delays:
                await asyncio.sleep(d)

        async def eval(self, scan, jslib="", **kw):
            await self.wait()
            r = self.eng.eval(scan, jslib, **kw)
            await self.wait()
            return r

        async def regex_eval(self, parsed_string, remaining_string, current_value, **kw):
            await self.wait()
            return self.eng.regex_eval(parsed_string, remaining_string, current_value, **kw)

    class Mixed(Async):
        def regex_eval(self, parsed_string, remaining_string, current_value, **kw):
            return self.eng.regex_eval(parsed_string, remaining_string, current_value, **kw)
    return {"sync": lambda e, d: Sync(e), "async": Async, "mixed": Mixed}


# ---- input objects -----------------------------------------------------------------------------------
def gen_inputs(rng, tok):
    def text():
        return tok + "".join(uni(rng) for _ in range(rng.choice([0, 0, 1, 2])))

    def value(d):
        r = rng.random()
        if r < 0.25 or d <= 0:
            return rng.choice([text(), text(), rng.randint(-10**9, 10**9), 0, 1.5, 1e22, True, False, None, "", {"$bytes": tok + "\u00e9"}])
        if r < 0.6:
            return [value(d - 1) for _ in range(rng.choice([0, 1, 2, 3]))]
        return {k: value(d - 1) for k in rng.sample(["x", "y", "a b", "it's", 'qu"ote', "k.k", "\u00e9", "n1", "(p)", "$(x)"], rng.choice([0, 1, 2, 3]))}
    o = {"s": text(), "n": rng.randint(-99, 9999), "l": [value(1) for _ in range(rng.choice([0, 1, 2, 4]))], "deep": {"x": {"y": value(1), "z": [value(1)]}}, "nul": None}
    for k in ("a b", "it's", 'qu"ote', "m", "blob"):
        if rng.random() < 0.5:
            o[k] = value(2)
    if rng.random() < 0.5:
        o["f"] = {"class": "File", "path": "/w/" + tok, "basename": tok, "size": 7, "contents": text(), "secondaryFiles": [{"class": "File", "path": "/w/i"}], "extra": {"k": 1}}
    if rng.random() < 0.3:
        o["d"] = {"class": "Directory", "path": "/w/d", "listing": [{"class": "File", "path": "/w/d/" + tok}]}
    return o


def thaw(v, raw):
    """Bytes are written {"$bytes": text} in a scenario; raw: as bytes, else as the text."""
    if isinstance(v, dict):
        if "$bytes" in v:
            return v["$bytes"].encode() if raw else v["$bytes"]
        return {k: thaw(x, raw) for k, x in v.items()}
    if isinstance(v, list):
        return [thaw(x, raw) for x in v]
    return v


def quote(rng, k):
    if k.isidentifier() and rng.random() < 0.8:
        return "." + k
    if '"' in k or "'" not in k and rng.random() < 0.5:
        return "['" + k.replace("'", "\\'") + "']"
    return '["' + k + '"]' if '"' not in k else "['" + k.replace("'", "\\'") + "']"


def gen_ref(rng, roots):
    """A parameter reference as [text, path]."""
    if rng.random() < 0.03:
        return ["(null)", None]
    root = rng.choice(["inputs", "inputs", "inputs", "inputs", "self", "runtime"])
    v, t, path = roots[root], "(" + root, [root]
    while True:
        if isinstance(v, dict) and v and "$bytes" not in v and (root == "inputs" and len(path) == 1 or rng.random() < 0.8):
            k = rng.choice(sorted(v))
            t += quote(rng, k)
            path.append(k)
            v = v[k]
        elif isinstance(v, list) and rng.random() < 0.8:
            if rng.random() < 0.25:
                return [t + ".length)", path + ["length"]]
            i = rng.choice([0, len(v) - 1, len(v) - 1, len(v), 1]) if v else rng.choice([0, 1])
            i = max(i, 0)
            t += "[%d]" % i
            path.append(i)
            if i >= len(v):
                return [t + ")", path]
            v = v[i]
        else:
            if rng.random() < 0.05:
                k = rng.choice(["nosuch", "class", "0"])
                t += "." + k
                path.append(k)
            return [t + ")", path]


JS_VALUES = ["(inputs.n + 1)", "{return inputs.s + ')' + '}';}", '("a)b(" + inputs.s)', "{ if (inputs.n > -1000) { return {k: '}', s: inputs.s}; } }", "(runtime.cores*2)", "(self)", "([inputs.l, inputs.nul])",
             "(inputs.l.map(function(x){return [x];}))", "([1,2].length)", "(\"it's\" + '\"')", "('\\'' + \"\\\"\")", '("$(x)" + "${y}")', "(null)", "(inputs.deep.x)", "(0.1+0.2)", "({b:1,a:inputs.s,c:[]})",
             "{var r = []; for (var k in inputs) { r.push(k); } return r.sort();}", "(inputs)", "(inputs.s.length > 2 ? 'long (' + inputs.s : 'short')", "(runtime.tmpdir)", "('')", "(\"\\\\\" + inputs.n)", "(1e21)", "(false)",
             "{inputs.n = 12345; return inputs.n;}", "{inputs.l = null; self = 3; return [self, inputs.l];}"]
JS_LIB = ["(helper(3))", "{return helper(inputs.n) + libvar;}", "([libvar, helper(1)])", "{libvar = 'changed'; return libvar;}"]
JS_ERRORS = ["(inputs.nosuch.x)", "{throw new Error('boom');}", "(undefinedName)", "{return;}", "(JSON.parse('{'))", "(inputs.nul.x)", "(inputs.nosuch)", "{undeclared = 1; return 2;}", "(nohelper(1))", "{return function(){};}"]
# those that are parameter references as well
REFS = {"(null)": None, "(self)": ["self"], "(inputs.deep.x)": ["inputs", "deep", "x"], "(inputs)": ["inputs"], "(runtime.tmpdir)": ["runtime", "tmpdir"],
        "(inputs.nosuch.x)": ["inputs", "nosuch", "x"], "(inputs.nul.x)": ["inputs", "nul", "x"], "(inputs.nosuch)": ["inputs", "nosuch"]}
OPEN = ["$(inputs.s", "${return 1;", "$('abc)", '$("', "$((1)", "${if (1) { return 2; }", "$(inputs['s)"]


def gen_text(rng, tok):
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        parts.append(rng.choice([tok, "x", "a b", "$", "$x", ")", "(", "{}", "'", '"', "\u20ac", "\U0001F600", "a\nb", "$ (", "--o=", "%s", "{0}", "null", "\"q\"", "$$"]))
    t = "".join(parts)
    while "$(" in t or "${" in t:
        t = t.replace("$(", "$ (").replace("${", "$ {")
    return t


class C05(JSBase):
    id = "C05"
    wanted = ("wrong-value", "value-for-error", "fails", "error-type", "never-ends", "inputs-changed")

    def setup(self):
        asyncio.set_event_loop_policy(SimPolicy())
        self.engines = make_engines()

    # ---- generation ------------------------------------------------------------------------------
    def gen(self, rng, tier):
        nth = rng.choices([1, 2, 3], [5, 4, 2])[0]
        faulty = rng.random() < 0.5
        kinds_on = {k for k in ("crash", "exit0", "stall", "ki", "idlekill", "hang", "slow", "exitscript", "spawnfail") if rng.random() < 0.5} if faulty else set()
        inputs = [gen_inputs(rng, "i%d.%d" % (i, rng.randint(0, 999))) for i in range(rng.choice([1, 2, 2, 3]))]
        n = 0
        threads = []
        for t in range(nth):
            ops = []
            for k in range(rng.randint(1, 5)):
                n += 1
                op = self.gen_op(rng, inputs, "u%d" % n, kinds_on)
                if faulty and rng.random() < 0.35:
                    opts = []
                    if "crash" in kinds_on:
                        opts += [{"f": "crash", "n": rng.randint(0, 12), "st": rng.choice([9, 11, 15])}]
                    if "exit0" in kinds_on:
                        opts += [{"f": "crash", "n": rng.randint(0, 12), "st": rng.choice([0, -1])}]
                    if "stall" in kinds_on:
                        opts += [{"f": "stall", "n": rng.randint(0, 10), "d": rng.choice([0.3, 2.0, op["timeout"] + 0.05, op["timeout"] + 4.0])}]
                    if "ki" in kinds_on and t == 0:
                        opts += [{"f": "ki", "n": rng.choice([0, 1, 2, 3, 5, 8, 14, 20, 30])}]
                    if "spawnfail" in kinds_on:
                        opts += [{"f": "spawnfail", "n": rng.randint(0, 3), "errno": rng.choice([2, 11, 12, 24])}]
                    if opts:
                        op["fault"] = rng.choice(opts)
                ops.append(op)
                if "fault" in op and rng.random() < 0.5:
                    ops.append({k: v for k, v in op.items() if k != "fault"})
                if "idlekill" in kinds_on and rng.random() < 0.15:
                    ops.append({"op": "idlekill", "st": rng.choice([9, 0]), "wait": rng.choice([0.5, 3.0])})
            threads.append(ops)
        return {"threads": threads, "inputs": inputs, "engine_api": rng.choice(["object", "default"]), "dispose": False, "redo": False,
                "cfg": {"p_split": rng.choice([0.0, 0.0, 0.2]), "p_fast": rng.choice([1.0, 0.9]), "p_switch": rng.choice([0.02, 0.1, 0.4]), "p_stall": 0.0,
                        "mean_gap": rng.choice([0, 10, 40, 150])}}

    def gen_op(self, rng, inputs, tok, kinds_on):
        i = rng.randrange(len(inputs))
        op = {"op": "eval", "kind": "field", "in": i, "self": rng.choice([None, None, tok, 5, [1, tok], {"class": "File", "path": "/s/" + tok, "size": 3}]),
              "res": {"cores": rng.randint(1, 9), "ram": 1.5}, "outdir": rng.choice([None, "", "/out"]), "tmpdir": rng.choice([None, "", "/tmp/" + tok]),
              "ver": rng.choice(["v1.0", "v1.1", "v1.2", "v1.2", ""]), "js": rng.random() < 0.75, "timeout": rng.choice([8, 20]),
              "engine": rng.choice(["node", "node", "sync", "async", "async", "mixed"]), "delays": rng.choice([[], [0], [0.01], [0, 2.5]]), "strip": rng.random() < 0.85}
        if rng.random() < 0.15:
            op["loop"] = 1           # the thread has an event loop of its own
        lib = []
        if op["js"]:
            if rng.random() < 0.5:
                lib = ["function helper(x){return x+%d;}" % rng.randint(1, 999), "var libvar = %s;" % js_lit(tok)]
            op["lib"] = lib
            if rng.random() < 0.3:
                op["reqs"] = rng.choice([["a"], ["b"], ["a", "b"]])
        roots = {"inputs": inputs[i], "self": op["self"], "runtime": self.runtime(op)}
        segs = []
        single = rng.random() < 0.3
        for _ in range(1 if single else rng.choice([1, 2, 3, 4, 6])):
            r = rng.random()
            if single:
                r = 0.5 + r / 2
            if r < 0.3:
                segs.append(["t", gen_text(rng, tok)])
            elif r < 0.5:
                segs.append(["e", rng.choice(["\\$(", "\\${", "\\\\", "\\\\", "\\n", "\\\"", "\\'", "\\$", "\\(", "\\ x"])])
            elif r < 0.75 or not op["js"] and r < 0.97:
                segs.append(["r"] + gen_ref(rng, roots))
            else:
                x = rng.random()
                if x < 0.2 and lib:
                    segs.append(["j", rng.choice(JS_LIB), "value"])
                elif x < 0.85:
                    e = rng.choice(JS_VALUES)
                    segs.append(["r", e, REFS[e]] if e in REFS else ["j", e, "value"])
                else:
                    e = rng.choice(JS_ERRORS)
                    segs.append(["r", e, REFS[e]] if e in REFS else ["j", e, "error"])
        js = [s for s in segs if s[0] == "j"]
        f = rng.random()
        if js and op["js"]:
            s = rng.choice(js)
            if "hang" in kinds_on and f < 0.12:
                s[1:] = ["{while(true){/*SIMHANG*/}}", "hang"]
                op["timeout"] = rng.choice([1, 5])
            elif "exitscript" in kinds_on and f < 0.2:
                s[1:] = ["(%s /*SIMEXIT %d*/)" % (js_lit(tok), rng.choice([0, 1])), "exit"]
            elif "slow" in kinds_on and f < 0.35:
                c = round(rng.choice([0.3, 0.7, 1.5]) * op["timeout"], 4)
                op["slow"] = c
                s[1] = s[1][:-1] + "/*SIMSLOW %s*/" % c + s[1][-1]
        if rng.random() < 0.04:
            segs.append(["b", rng.choice(OPEN)])
        elif rng.random() < 0.05 and not single:
            segs.append(["z", "\\"])
        op["ws"] = [rng.choice(["", "", "", " ", "\n ", "\t"]), rng.choice(["", "", "", " ", "\n"])]
        op["segs"] = tidy(segs)
        return op

    def runtime(self, op):
        return dict(op["res"], tmpdir=op["tmpdir"] or None, outdir=op["outdir"] or None)

    # ---- reference ---------------------------------------------------------------------------------
    def field(self, op):
        return op["ws"][0] + "".join("$" + s[1] if s[0] in "rj" else s[1] for s in op["segs"]) + self.trail(op)

    def trail(self, op):
        return "" if op["segs"] and op["segs"][-1][0] == "z" else op["ws"][1]

    def reference(self, scen, op):
        f = self.field(op)
        if "$(" not in f and "${" not in f:
            return ("value", f)
        roots = {"inputs": thaw(scen["inputs"][op["in"]], False), "self": op["self"], "runtime": self.runtime(op)}
        lead, trail = ("", "") if op["strip"] else (op["ws"][0], self.trail(op))
        segs = op["segs"]
        if any(s[0] == "b" for s in segs):
            return ("error",)
        out = lead
        for s in segs:
            if s[0] in "tz":
                out += s[1]
            elif s[0] == "e":
                out += escape(s[1], op["ver"] in OLD)
            else:
                v = self.one(op, s, roots)
                if v[0] != "value":
                    return ("error",)
                if len(segs) == 1 and not lead and not trail:
                    return v
                out += v[1] if isinstance(v[1], str) else json.dumps(v[1], sort_keys=True)
        return ("value", out + trail)

    def one(self, op, s, roots):
        if s[0] == "r":
            if s[2] is None:
                return ("value", None)
            v = select(roots, s[2])
            if v[0] == "value" or not op["js"]:
                return v
        if not op["js"]:
            return ("error",)
        lib = "\n".join(op["lib"] + ["var %s = %s;" % (k, js_lit_value(v)) for k, v in roots.items()])
        return js_reference({"kind": "plain", "expr": s[1], "lib": lib, "cat": s[2] if s[0] == "j" else "value"})

    # ---- execution -----------------------------------------------------------------------------------
    def execute(self, scen, seed, replay=None, log=False):
        self.live = [thaw(v, True) for v in scen["inputs"]]
        return super().execute(scen, seed, replay, log)

    def evaluate(self, scen, op, eng, rec):
        from cwl_utils import expression, sandboxjs
        reqs = [{"class": "ResourceRequirement", "coresMin": 1}]
        if op["js"]:
            r = {"class": "InlineJavascriptRequirement"}
            if op["lib"]:
                r["expressionLib"] = list(op["lib"])
            reqs = [{"class": "InlineJavascriptRequirement", "expressionLib": ["function helper(x){return 'outer';}", "var libvar = 'outer';"]}] * ("a" in op.get("reqs", ())) + reqs + [r]
            if "b" in op.get("reqs", ()):
                reqs.append({"class": "ShellCommandRequirement"})
        before = copy.deepcopy(reqs)
        kw = {}
        if op["engine"] != "node":
            kw["js_engine"] = self.engines[op["engine"]](eng, op["delays"])
        elif scen["engine_api"] == "object":
            kw["js_engine"] = eng
        loop = None
        if op.get("loop"):
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)
        try:
            v = expression.do_eval(self.field(op), self.live[op["in"]], reqs, op["outdir"], op["tmpdir"], dict(op["res"]), context=copy.deepcopy(op["self"]), timeout=op["timeout"],
                                   strip_whitespace=op["strip"], cwlVersion=op["ver"], **kw)
        finally:
            if loop is not None:
                asyncio.set_event_loop(None)
                loop.close()
        rec["value"] = copy.deepcopy(v)
        rec["out"] = "value"
        rec["reqs"] = reqs == before

    # ---- oracle --------------------------------------------------------------------------------------
    def judge(self, scen, sim, world, hist, refs, state, res):
        V = res.violate
        if sim.abort_reason not in (None, "drivers-done"):
            for h in hist:
                if "t1" not in h and h["op"]["op"] == "eval" and (sim.abort_reason == "deadlock" or sim.now - h["t0"] > len(h["op"]["segs"]) * (h["op"]["timeout"] + 20) + 60):
                    V("never-ends", "%s did not end: %s at +%.1fs" % (self.where(h), sim.abort_reason, sim.now - h["t0"]))
                    break
            else:
                res.inconclusive = sim.abort_reason
        for h in hist:
            op = h["op"]
            if op["op"] != "eval" or "t1" not in h:
                continue
            ref = refs[h["ti"], h["oi"]]
            w = self.where(h)
            res.probes[h["out"]] = res.probes.get(h["out"], 0) + 1
            if h["out"] == "value":
                res.probes["kind-" + op["engine"]] = res.probes.get("kind-" + op["engine"], 0) + 1
                if ref[0] != "value":
                    V("value-for-error", "%s has no value but gives %r" % (w, short(h["value"])))
                elif not strict_eq(h["value"], ref[1]):
                    V("wrong-value", "%s must give %r but gives %r" % (w, short(ref[1]), short(h["value"])))
                if not h["reqs"]:
                    V("inputs-changed", "%s changed the requirements it was given" % w)
            elif h["out"] == "interrupt":
                if (op.get("fault") or {}).get("f") != "ki":
                    V("fails", "%s raised KeyboardInterrupt without an interrupt" % w)
            else:
                if not h["iswf"]:
                    V("error-type", "%s failed with %s instead of a workflow exception" % (w, h["exc"]))
                disturbed = bool(h["fired"]) or h["dying"] or bool(h["deaths"])
                late = op.get("slow", 0) + h["estall"] + h["stalls"] + sum_lat(h) >= op["timeout"] - 0.3
                if ref[0] == "value" and not disturbed and not late:
                    V("fails", "%s must give %r and nothing went wrong during it, but it raised %s" % (w, short(ref[1]), h["exc"]))
        for v, o in zip(self.live, scen["inputs"]):
            if not strict_eq(thaw_all(v), thaw(o, False)):
                V("inputs-changed", "an input object was changed: %s" % short(thaw_all(v)))

    def where(self, h):
        op = h["op"]
        return "thread %d op %d `%s` (%s engine, CWL %s, js %s, faults %s, loop %s)" % (h["ti"], h["oi"], self.field(op)[:300], op["engine"], op["ver"], op["js"], [f[0] for f in h.get("fired", [])], op.get("loop", 0))

    # ---- shrinking -----------------------------------------------------------------------------------
    def shrinks(self, scen):
        th = scen["threads"]
        for i in range(len(th)):
            if len(th) > 1:
                yield dict(scen, threads=th[:i] + th[i + 1:])
        for i in range(len(th)):
            for l in list_shrinks(th[i]):
                if l or len(th) > 1:
                    yield dict(scen, threads=th[:i] + [l] + th[i + 1:])
        for i in range(len(th)):
            for j, op in enumerate(th[i]):
                def rep(new):
                    return dict(scen, threads=th[:i] + [th[i][:j] + [new] + th[i][j + 1:]] + th[i + 1:])
                if op["op"] != "eval":
                    continue
                if "fault" in op:
                    yield rep({k: v for k, v in op.items() if k != "fault"})
                    if op["fault"].get("n", 0) > 0:
                        yield rep(dict(op, fault=dict(op["fault"], n=op["fault"]["n"] - 1)))
                for l in list_shrinks(op["segs"]):
                    yield rep(dict(op, segs=tidy(l)))
                for k, v in (("engine", "node"), ("delays", []), ("ws", ["", ""]), ("loop", 0), ("self", None), ("reqs", []), ("outdir", None), ("tmpdir", None), ("slow", 0)):
                    if op.get(k, v) != v:
                        yield rep(dict(op, **{k: v}))
        for i, o in enumerate(scen["inputs"]):
            for k in sorted(o):
                yield dict(scen, inputs=scen["inputs"][:i] + [{x: y for x, y in o.items() if x != k}] + scen["inputs"][i + 1:])
        c = scen["cfg"]
        for k in ("p_split", "mean_gap"):
            if c[k]:
                yield dict(scen, cfg=dict(c, **{k: 0}))


def js_lit_value(v):
    return json.dumps(v)


def thaw_all(v):
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, dict):
        return {k: thaw_all(x) for k, x in v.items()}
    if isinstance(v, list):
        return [thaw_all(x) for x in v]
    return v


def escape(raw, old):
    if raw in ("\\$(", "\\${"):
        return raw[1:]
    if raw == "\\\\":
        return "\\"
    return raw[1:] if old else raw


def select(roots, path):
    v = roots[path[0]]
    for n, k in enumerate(path[1:], 1):
        if isinstance(k, int):
            if not isinstance(v, list) or k >= len(v):
                return ("error",)
        elif isinstance(v, list) and k == "length" and n == len(path) - 1:
            return ("value", len(v))
        elif not isinstance(v, dict) or k not in v:
            return ("error",)
        v = v[k]
    return ("value", v)


def tidy(segs):
    """Keeps neighbours from forming other elements than intended."""
    out = []
    for i, s in enumerate(segs):
        s = list(s)
        raw = s[1]
        prev = ("$" if out[-1][0] in "rj" else "") + out[-1][1] if out else ""
        if s[0] in "t" and raw[:1] in ("(", "{") and prev.endswith("$") and out[-1][0] in "te":
            s[1] = "." + raw
        if s[0] == "z" and i != len(segs) - 1:
            continue
        if s[0] == "b" and i != len(segs) - 1:
            continue
        out.append(s)
    # the ends are not white space
    if out and out[0][0] == "t" and out[0][1] != out[0][1].lstrip():
        out[0][1] = "." + out[0][1]
    if out and out[-1][0] == "t" and out[-1][1] != out[-1][1].rstrip():
        out[-1][1] += "."
    return out

"""C06, C07: packing.  Trees of local and remote documents, failing fetches and reads, retries, histories and threads."""
import contextlib
import copy
import io
import json
import urllib.parse

from . import core, docs
from .base import Check, Result, list_shrinks, strict_eq
from .fs import FS, SimCrash, Std
from .net import Net
from .state import ModuleState

NETF = ["dns", "refused", "unreachable", "connect-timeout", "reset", "eof", "status", "status", "garbage", "slow", "short", "short", "reset-body", "short-head", "badchunk"]
FSF = ["errno", "errno", "errno", "missing", "missing", "broken", "broken", "interrupt", "stall"]


def retok(x, k):
    """The same tree after its author edited the texts."""
    return json.loads(json.dumps(x).replace("tok", "tk%dx" % k)) if k else x


def root_of(i, where):
    if where == "http":
        return "http://a.example/d%d/main.cwl" % i
    return "/sim/d%d/main.cwl" % i


def spelled(i, where):
    return {"http": "http://a.example/d%d/main.cwl", "file": "file:///sim/d%d/main.cwl", "rel": "../d%d/main.cwl", "abs": "/sim/d%d/main.cwl"}[where] % i


def put_files(fs, net, files, edit=0):
    for u, t in files.items():
        if edit:
            t = t.replace("tok", "tk%dx" % edit)
        if docs.is_remote(u):
            net.put(u, t)
        else:
            d = u.rsplit("/", 1)[0]
            mkdirs(fs, d)
            fs.k_write(u, t)


def mkdirs(fs, d):
    if not fs.k_exists(d):
        mkdirs(fs, d.rsplit("/", 1)[0])
        fs.k_mkdir(d)


def gen_faults(rng, nlinks):
    out = []
    for _ in range(rng.choices([1, 2], [4, 1])[0]):
        x = rng.random()
        link = rng.randrange(max(1, nlinks))
        if x < 0.08:
            out.append({"t": "ki", "at": rng.choice([1, 2, 3, 5, 8, 12, 20, 30])})
        elif x < 0.5:
            out.append({"t": "net", "k": rng.choice(NETF), "at": rng.choice([0, 0, 0, 1, 2]), "code": rng.choice([404, 403, 500, 502, 503, 429]), "frac": rng.choice([0, 0.3, 0.7, 0.99]), "d": 3.0,
                        "link": link if rng.random() < 0.7 else None})
        else:
            out.append({"t": "file", "k": rng.choice(FSF), "link": link, "op": rng.choice(["open", "read", "read", "any"]), "errno": rng.choice([5, 13, 2, 24, 116, 12]), "at": rng.choice([0, 0, 0, 1])})
    return out


class Faults:
    """Sets up the faults of one attempt and undoes what lasts."""
    def __init__(self, fs, net, order):
        self.fs, self.net, self.order = fs, net, order
        self.undo = []
        self.lasting = []        # files that cannot be read properly during this attempt

    def target(self, f):
        if not self.order or f.get("link") is None:
            return None
        return self.order[f["link"] % len(self.order)]

    def apply(self, st, faults):
        for f in faults:
            if f["t"] == "ki":
                st.ki_at, st.ki_exc = f["at"], None
                continue
            u = self.target(f)
            if f["t"] == "net":
                d = {k: f[k] for k in ("k", "at", "code", "frac", "d")}
                if u is not None and docs.is_remote(u):
                    d["at"] = 0
                    if f["k"] not in ("dns", "refused", "unreachable", "connect-timeout"):
                        d["where"] = urllib.parse.urlparse(u).path
                self.net.faults.append(d)
                continue
            if u is None:
                continue
            if f["k"] == "missing" or f["k"] == "broken":
                old = self.net.pages.get(u) if docs.is_remote(u) else self.fs.k_read(u)
                if old is None:
                    continue
                text = u.endswith((".txt",))
                if f["k"] == "broken" and text:
                    continue
                new = None if f["k"] == "missing" else old[:max(0, len(old) // 2)] + b"\n}: [ \"unfinished\n"
                self.lasting.append((u, f["k"]))
                self.undo.append((u, old))
                self.set(u, new)
                self.fs.sim.fired("file-" + f["k"])
            elif not docs.is_remote(u):
                d = {"k": f["k"], "op": "open" if f["k"] != "errno" else f["op"], "at": f["at"], "errno": f["errno"], "where": u}
                if f["k"] == "stall":
                    d["d"] = 5.0
                self.fs.faults.append(d)

    def set(self, u, data):
        if docs.is_remote(u):
            if data is None:
                self.net.pages.pop(u, None)
            else:
                self.net.pages[u] = data
        elif data is None:
            self.fs.k_unlink(u)
        else:
            self.fs.k_write(u, data)

    def restore(self):
        for u, old in reversed(self.undo):
            self.set(u, old)


class PackBase(Check):
    def setup(self):
        import cwl_utils.pack as p
        import cwl_utils.schemadef as sd
        import cwl_utils.utils as ut
        import cwl_utils.types as ty
        self.pack = p
        self.state = ModuleState(p, sd, ut, ty)

    def world(self, sim, scen):
        sim.world = None
        fs = FS(sim, scen.get("salt", 0))
        net = Net(sim)
        net.p_split, net.chunked = scen.get("p_split", 0), scen.get("chunked", 0)
        fs.p_short_read = scen.get("p_short", 0)
        return fs, net


class C06(PackBase):
    id = "C06"

    def gen(self, rng, tier):
        remote = rng.choice([0, 0.2, 0.5, 0.9])
        tree = docs.Gen(rng, {"remote": remote, "fragremote": remote, "depth": rng.choice([1, 2, 2, 3]), "types": rng.choice([0, 0.5, 0.8]), "frag": rng.choice([0, 0.3, 0.6]),
                              "chain": rng.choice([0, 0.3]), "budget": rng.choice([3, 5, 7]), "yaml11": 0.05}).tree()
        where = rng.choice(["abs", "abs", "rel", "file", "http"])
        at = []
        for i in range(rng.choices([1, 2, 3], [2, 3, 1])[0]):
            a = {}
            if rng.random() < 0.8:
                a["faults"] = gen_faults(rng, 12)
            at.append(a)
        at.append({})
        if rng.random() < 0.2:
            at[-1]["edit"] = 1
        return {"tree": tree, "where": where, "attempts": at, "salt": rng.randrange(3), "p_split": rng.choice([0, 0.4]), "chunked": rng.choice([0, 0.5]), "p_short": rng.choice([0, 0.3]),
                "cfg": {"p_fast": rng.choice([1.0, 0.8])}}

    def execute(self, scen, seed, replay=None, log=False):
        sim = core.Sim(seed, replay, dict(scen["cfg"], log=log, max_points=80000, max_time=20000.0))
        fs, net = self.world(sim, scen)
        self.state.restore()
        res = Result()
        root = root_of(0, scen["where"])
        files, exp, b = docs.build(scen["tree"], root)
        order = [root] + b.links
        hist = []

        def attempt(i, a):
            st = sim.threads[0]
            e = a.get("edit", 0)
            fs.active = False
            put_files(fs, net, files, e)
            fs.active = True
            fs.lifetime(cwd="/sim/work")
            net.lifetime()
            fl = Faults(fs, net, order)
            fl.apply(st, a.get("faults", []))
            rec = {"i": i, "a": a}
            hist.append(rec)
            fs.active = False
            before = {u: d for u, d in fs.tree("/sim").items() if isinstance(d, bytes)}
            fs.active = True
            with Std(fs):
                try:
                    rec["v"] = self.pack.pack(spelled(0, scen["where"]))
                    rec["out"] = "ok"
                except core.SimExit:
                    raise
                except BaseException as x:
                    rec["out"] = type(x).__name__
                    rec["msg"] = str(x)[:200]
                    del x
            rec["fired"] = fs.hit + net.hit + (["interrupt"] if rec["out"] == "KeyboardInterrupt" else [])
            rec["lasting"] = fl.lasting
            st.ki_at = None
            fs.active = False
            after = {u: d for u, d in fs.tree("/sim").items() if isinstance(d, bytes)}
            rec["touched"] = [u for u in set(before) | set(after) if before.get(u) != after.get(u)]
            if rec["out"] == "ok":
                rec["v"] = json.loads(json.dumps(rec["v"])) if jsonable(rec["v"]) else None
            fl.restore()
            fs.active = True
            sim.trace("pack", i, rec["out"])
            sim.sleep(1.0)
        sim.run([("T0", lambda: [attempt(i, a) for i, a in enumerate(scen["attempts"])])])
        if sim.abort_reason not in (None, "drivers-done"):
            res.inconclusive = sim.abort_reason
        for r in hist:
            if "touched" not in r:
                continue
            what = "attempt %d of packing %s (faults %s): " % (r["i"], scen["where"], r["fired"] + ["%s %s" % (k, u) for u, k in r["lasting"]])
            res.probes[r["out"] if r["out"] in ("ok", "KeyboardInterrupt") else "raised"] = res.probes.get(r["out"] if r["out"] in ("ok", "KeyboardInterrupt") else "raised", 0) + 1
            if r["touched"]:
                res.violate("source-changed", what + "changed %s" % sorted(r["touched"]))
            if r["out"] == "ok":
                if any(u not in b.lazy for u, k in r["lasting"]):
                    res.violate("failure-hidden", what + "succeeded")
                    continue
                if r["v"] is None:
                    res.violate("incomplete", what + "result is not JSON")
                    continue
                d = docs.compare(r["v"], retok(exp, r["a"].get("edit", 0)), [])
                if d:
                    res.violate("incomplete", what + d)
            elif not r["fired"] and not r["lasting"]:
                res.violate("fails", what + "%s %s although nothing went wrong" % (r["out"], r["msg"]))
        res.take(sim)
        res.ops = len(hist)
        return res

    def shrinks(self, scen):
        for l in list_shrinks(scen["attempts"]):
            if l:
                yield dict(scen, attempts=l)
        for i, a in enumerate(scen["attempts"]):
            for fl in list_shrinks(a.get("faults", [])):
                yield dict(scen, attempts=scen["attempts"][:i] + [dict(a, faults=fl)] + scen["attempts"][i + 1:])
        for t in docs.shrink_tree(scen["tree"]):
            yield dict(scen, tree=t)
        if scen["where"] != "abs":
            yield dict(scen, where="abs")
        for k in ("p_split", "chunked", "p_short"):
            if scen.get(k):
                yield dict(scen, **{k: 0})


def jsonable(v):
    try:
        json.dumps(v)
        return True
    except (TypeError, ValueError):
        return False


class C07(PackBase):
    id = "C07"
    lines = True

    def setup(self):
        super().setup()
        for x in ("ruamel/yaml/main.py", "ruamel/yaml/constructor.py"):
            if x not in core.LINE_TARGETS:
                core.LINE_TARGETS.append(x)

    def gen(self, rng, tier):
        nd = rng.choices([1, 2, 3], [2, 4, 1])[0]
        trees = []
        types = rng.choice([0.5, 0.9, 0.9, 1.0])
        for i in range(nd):
            trees.append(docs.Gen(rng, {"remote": 0.2, "fragremote": 0.1, "depth": rng.choice([0, 1, 1, 2]), "types": types, "frag": rng.choice([0, 0.2]), "chain": 0.1,
                                        "budget": rng.choice([1, 2, 4]), "yaml11": 0.12}, first=1000 * i).tree())
        nth = rng.choices([1, 2, 3], [3, 4, 1])[0]
        threads = []
        for t in range(nth):
            ops = []
            for k in range(rng.randint(2, 4) if nth == 1 else rng.randint(1, 2)):
                op = {"doc": rng.randrange(nd)}
                if rng.random() < (0.35 if nth == 1 else 0.1):
                    op["faults"] = gen_faults(rng, 10)
                    if nth > 1:
                        op["faults"] = [f for f in op["faults"] if f["t"] == "net" or f["t"] == "ki"]
                elif nth == 1 and rng.random() < 0.2:
                    op["edit"] = rng.choice([1, 2])
                ops.append(op)
            threads.append(ops)
        return {"trees": trees, "threads": threads, "salt": 0, "p_split": 0, "chunked": 0, "p_short": 0,
                "cfg": {"p_fast": rng.choice([1.0, 0.8]), "p_line": rng.choice([0, 0.02, 0.1, 0.3]) if nth > 1 else 0}}

    def execute(self, scen, seed, replay=None, log=False):
        res = Result()
        builds = [docs.build(t, "/sim/d%d/main.cwl" % i) for i, t in enumerate(scen["trees"])]
        # what each document packs to in a fresh process
        golden = {}
        need = sorted({(op["doc"], op.get("edit", 0)) for ops in scen["threads"] for op in ops})

        def clean(fs, net, d, e):
            if True:
                self.state.restore()
                fs.active = False
                put_files(fs, net, builds[d][0], e)
                fs.active = True
                fs.lifetime(cwd="/sim/work")
                with Std(fs):
                    try:
                        golden[d, e] = ("ok", json.dumps(self.pack.pack("/sim/d%d/main.cwl" % d), sort_keys=True))
                    except core.SimExit:
                        raise
                    except BaseException as x:
                        golden[d, e] = ("raise", type(x).__name__ + ": " + str(x)[:200])
                        del x
        for d, e in need:
            sim0 = core.Sim(seed ^ 0x5bd1, None, {"p_fast": 1.0, "log": False, "max_points": 200000})
            fs0, net0 = self.world(sim0, {})
            sim0.run([("T0", lambda: clean(fs0, net0, d, e))])
            if sim0.errors:
                res.errors = list(sim0.errors)
                return res
        sim = core.Sim(seed, replay, dict(scen["cfg"], log=log, max_points=400000, max_time=20000.0))
        fs, net = self.world(sim, scen)
        self.state.restore()
        hist = []
        nth = len(scen["threads"])
        fs.active = False
        for f, e, b in builds:
            put_files(fs, net, f)
        fs.active = True
        fs.lifetime(cwd="/sim/work")

        def thread(t, ops):
            st = sim.threads[t]
            for op in ops:
                d, e = op["doc"], op.get("edit", 0)
                if nth == 1:
                    fs.active = False
                    put_files(fs, net, builds[d][0], e)
                    fs.active = True
                    fs.hit.clear()
                    net.lifetime()
                    fs.faults = []
                fl = Faults(fs, net, ["/sim/d%d/main.cwl" % d] + builds[d][2].links)
                fl.apply(st, op.get("faults", []))
                rec = {"t": t, "op": op, "d": d, "e": e}
                hist.append(rec)
                try:
                    v = self.pack.pack("/sim/d%d/main.cwl" % d)
                    rec["v"] = json.dumps(v, sort_keys=True)
                    rec["out"] = "ok"
                    if isinstance(v, dict) and not op.get("edit") and sim.pick("scribble", (0, 1), 0.7):
                        scribble(v)          # the result belongs to the caller
                except core.SimExit:
                    raise
                except BaseException as x:
                    rec["out"] = "raise"
                    rec["msg"] = type(x).__name__ + ": " + str(x)[:200]
                    del x
                rec["faulty"] = bool(op.get("faults")) or (nth > 1 and any(o.get("faults") for os in scen["threads"] for o in os))
                st.ki_at = None
                fl.restore()
                sim.trace("pack", t, d, rec["out"])
        with contextlib.redirect_stderr(io.StringIO()):
            sim.run([("T%d" % i, lambda i=i, o=o: thread(i, o)) for i, o in enumerate(scen["threads"])])
        if sim.abort_reason not in (None, "drivers-done"):
            res.inconclusive = sim.abort_reason
        for (d, e), (o, v) in golden.items():
            if o == "ok":
                names = []
                diff = docs.compare(json.loads(v), retok(builds[d][1], e), names)
                if diff is None:
                    dup = sorted({n for n in names if names.count(n) > 1})
                    if dup:
                        res.violate("duplicate-name", "document %d: the names %s are given to two inlined types" % (d, dup))
        for r in hist:
            if "out" not in r:
                continue
            res.probes[r["out"]] = res.probes.get(r["out"], 0) + 1
            g = golden[r["d"], r["e"]]
            what = "thread %d of %d, document %d: " % (r["t"], nth, r["d"])
            if r["out"] == "ok":
                if g[0] != "ok":
                    res.violate("differs", what + "packs here, but not in a fresh process: " + g[1])
                elif r["v"] != g[1]:
                    res.violate("differs", what + "differs from packing in a fresh process: " + where(json.loads(r["v"]), json.loads(g[1])))
            elif not r["faulty"] and g[0] == "ok":
                res.violate("differs", what + "raises %s; in a fresh process it packs" % r["msg"])
        res.take(sim)
        res.ops = len(hist)
        return res

    def shrinks(self, scen):
        for l in list_shrinks(scen["threads"]):
            if l:
                yield dict(scen, threads=l)
        for i, ops in enumerate(scen["threads"]):
            def put(x):
                return dict(scen, threads=scen["threads"][:i] + [x] + scen["threads"][i + 1:])
            for l in list_shrinks(ops):
                if l:
                    yield put(l)
            for k, op in enumerate(ops):
                if op.get("faults"):
                    yield put(ops[:k] + [{"doc": op["doc"]}] + ops[k + 1:])
        for i, t in enumerate(scen["trees"]):
            for x in docs.shrink_tree(t):
                yield dict(scen, trees=scen["trees"][:i] + [x] + scen["trees"][i + 1:])


def scribble(v):
    for k in list(v):
        x = v[k]
        if isinstance(x, dict):
            scribble(x)
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, dict):
                    scribble(y)
            x.append("scribble")
    v["scribble"] = 1


def where(a, b, p=""):
    if type(a) is not type(b):
        return "%s: %s / %s" % (p, docs.short(a), docs.short(b))
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return where(a.get(k), b.get(k), p + "/" + k)
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s: %d / %d entries" % (p, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return where(x, y, "%s/%d" % (p, i))
    return "%s: %s / %s" % (p, docs.short(a), docs.short(b))

"""C08, C09, C14: the document-writing command-line tools over a failing disk and network, with crashes, interrupts and reruns."""
import copy
import gc
import json
import os
import posixpath
import re
import sys

from . import core, docs
from .base import Check, Result, list_shrinks
from .c06 import Faults, gen_faults, mkdirs, put_files, retok, spelled
from .fs import FS, SimCrash, Std
from .net import Net
from .state import ModuleState

OUT = "/sim/work/out"
PREFIXES = ("cwl_utils", "schema_salad", "cwlupgrader", "cwlformat", "ruamel.yaml")


def all_state():
    ms = [m for n, m in sorted(sys.modules.items()) if m is not None and (n in PREFIXES or n.startswith(tuple(p + "." for p in PREFIXES)))]
    return ModuleState(*ms)


# ------------------------------------------------------------------ packed documents and what splitting them must give
def gen_graph(rng):
    """Parts of a workflow: type files, tools and sub-workflows, main."""
    n = [0]

    def uid():
        n[0] += 1
        return n[0]
    files = {}
    for f in rng.sample(["types.yml", "recs.yml", "t2.yaml", "main"], rng.choices([0, 1, 2, 3], [2, 4, 2, 1])[0]):
        types = []
        for k in range(rng.choices([1, 2, 3], [3, 3, 1])[0]):
            same = [t["name"] for t in types]
            other = [(g, t["name"]) for g in files for t in files[g]]
            kind = rng.choice(["record", "record", "array", "enum"])
            t = {"name": "ty%d" % uid(), "kind": kind}

            def ref():
                c = ["string", "File", "int"]
                x = rng.random()
                r = rng.choice(c)
                if same and x < 0.4:
                    r = ["ref", f, rng.choice(same)]
                elif other and x < 0.6:
                    r = ["ref"] + list(rng.choice(other))
                return ["opt", r] if rng.random() < 0.25 else r
            if kind == "record":
                t["fields"] = [{"name": "f%d" % i, "t": ref()} for i in range(rng.randint(1, 3))]
            elif kind == "array":
                t["items"] = ref()
            else:
                t["symbols"] = ["a", "b%d" % uid()]
            types.append(t)
        files[f] = types
    procs = []
    names = rng.sample(["tool1.cwl", "tool2.cwl", "sub.cwl", "tool", "wf2.cwl"], rng.randint(1, 3))
    refs = [[g, t["name"]] for g in files for t in files[g]]
    for nm in names + ["main"]:
        wf = nm == "main" or nm in ("sub.cwl", "wf2.cwl") and procs
        p = {"id": nm, "wf": bool(wf), "n": uid(), "inputs": [], "label": rng.choice([None, "label tok%d" % uid(), "\u00e9\u4e2d tok%d" % uid()])}
        for i in range(rng.randint(1, 3)):
            t = rng.choice(["string", "File", ["opt", "string"], ["arr", "int"]])
            if refs and rng.random() < 0.6:
                t = ["ref"] + rng.choice(refs)
                if rng.random() < 0.3:
                    t = [rng.choice(["opt", "arr"]), t]
            p["inputs"].append({"id": "in%d" % i, "t": t, "default": rng.random() < 0.15})
        if wf:
            p["steps"] = []
            subs = [q["id"] for q in procs]
            for i in range(rng.randint(1, 3) if subs else 0):
                st = {"id": "s%d" % i, "run": rng.choice(subs), "src": rng.choice(["in0"] + ["s%d/out" % j for j in range(i)]), "list": rng.random() < 0.2,
                      "scatter": rng.random() < 0.2}
                p["steps"].append(st)
        p["types_first"] = rng.random() < 0.5
        procs.append(p)
    return {"files": files, "procs": procs, "ver": rng.choice(["v1.0", "v1.1", "v1.2"]), "style": rng.choice(["json", "json", "yaml"]), "dup": rng.random() < 0.3, "mainname": rng.choice(["main"] * 9 + ["other"])}


def used_files(p, files):
    """The type files whose types a process needs, in the order of first use."""
    out = []

    def walk(t):
        if isinstance(t, list):
            if t[0] == "ref":
                add(t[1])
            else:
                walk(t[1])

    def add(f):
        if f in out:
            return
        out.append(f)
    for i in p["inputs"]:
        walk(i["t"])
    more = True
    while more:
        more = False
        for f in list(out):
            for t in files[f]:
                n = len(out)
                for x in [y["t"] for y in t.get("fields", [])] + ([t["items"]] if "items" in t else []):
                    walk(x)
                more = more or len(out) > n
    # types are defined before they are used
    return [f for f in files if f in out]


def graph_doc(g):
    """-> (packed text, {file: expected content})"""
    def pt(t, local=None, form="packed"):
        if isinstance(t, str):
            return t
        if t[0] == "ref":
            if form == "packed":
                return "#%s/%s" % (t[1], t[2])
            return t[2] if t[1] == local else "%s#%s" % (t[1], t[2])
        if t[0] == "opt":
            return ["null", pt(t[1], local, form)]
        return {"type": "array", "items": pt(t[1], local, form)}
    graph, want = [], {}
    seen = set()
    for p in g["procs"]:
        pid = p["id"] if p["id"] != "main" else g["mainname"]
        a = {"class": "Workflow" if p["wf"] else "CommandLineTool", "id": "#" + pid}
        b = {"class": a["class"]}
        if p["label"]:
            a["label"] = b["label"] = p["label"]
        for form, d in (("packed", a), ("split", b)):
            pre = "#%s/" % pid if form == "packed" else ""
            d["inputs"] = []
            for i in p["inputs"]:
                e = {"id": pre + i["id"], "type": pt(i["t"], None, form)}
                if i["default"]:
                    e["default"] = None
                d["inputs"].append(e)
            if p["wf"]:
                d["outputs"] = [{"id": pre + "out", "type": "Any", "outputSource": pre + "%s/out" % p["steps"][-1]["id"]}] if p["steps"] else []
                d["steps"] = []
                for st in p["steps"]:
                    e = {"id": pre + st["id"], "run": "#" + st["run"] if form == "packed" else st["run"][:-4] + ".cwl" if st["run"].endswith(".cwl") else st["run"] + ".cwl"}
                    s = pre + st["src"]
                    e["in"] = [{"id": pre + st["id"] + "/in0", "source": [s] if st["list"] else s}]
                    e["out"] = [pre + st["id"] + "/out"] if form == "packed" else ["out"]
                    if st["scatter"]:
                        e["scatter"] = pre + st["id"] + "/in0"
                    d["steps"].append(e)
            else:
                d["outputs"] = [{"id": pre + "out", "type": "File", "outputBinding": {"glob": "o%d" % p["n"]}}]
                d["baseCommand"] = ["echo", "tok%d" % p["n"]]
        uf = used_files(p, g["files"])
        if uf:
            types = []
            for f in uf:
                for t in g["files"][f]:
                    full = "#%s/%s" % (f, t["name"])
                    if full in seen and not g["dup"]:
                        types.append({"$import": full})
                        continue
                    seen.add(full)
                    d = {"name": full, "type": t["kind"]}
                    e = {"name": t["name"], "type": t["kind"]}
                    if "fields" in t:
                        d["fields"] = [{"name": full + "/" + x["name"], "type": pt(x["t"])} for x in t["fields"]]
                        e["fields"] = [{"name": x["name"], "type": pt(x["t"], f, "split")} for x in t["fields"]]
                    elif "items" in t:
                        d["items"], e["items"] = pt(t["items"]), pt(t["items"], f, "split")
                    else:
                        d["symbols"] = [full + "/" + x for x in t["symbols"]]
                        e["symbols"] = list(t["symbols"])
                    types.append(d)
                    w = want.setdefault(f, [])
                    if not any(x["name"] == e["name"] for x in w):
                        w.append(e)
            r = {"types": types, "class": "SchemaDefRequirement"} if p["types_first"] else {"class": "SchemaDefRequirement", "types": types}
            a["requirements"] = [r]
            b["requirements"] = [{"class": "SchemaDefRequirement", "types": [{"$import": f} for f in uf]}]
        graph.append(a)
        b["cwlVersion"] = g["ver"]
        want[pid + ("" if pid.endswith(".cwl") else ".cwl")] = b
    doc = {"cwlVersion": g["ver"], "$graph": graph}
    if g["style"] == "json":
        text = json.dumps(doc, indent=4)
    else:
        text = "\n".join(docs.block(doc, 0)) + "\n"
    return text, want


def same(got, want, path=""):
    """None, or where a split part differs (references to a type may be spelled with or without its own file)."""
    if isinstance(want, dict):
        if not isinstance(got, dict) or set(got) != set(want):
            return "%s: %s instead of %s" % (path, docs.short(got), docs.short(want))
        for k in want:
            r = same(got[k], want[k], path + "/" + k)
            if r:
                return r
        return None
    if isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            return "%s: %s instead of %s" % (path, docs.short(got), docs.short(want))
        for i, (x, y) in enumerate(zip(got, want)):
            r = same(x, y, "%s/%d" % (path, i))
            if r:
                return r
        return None
    if isinstance(want, str) and isinstance(got, str):
        last = lambda s: s.replace("#", "/").split("/")[-1]
        if got != want and (not got.startswith(("#", "")) or last(got) != last(want) or not path.split("/")[-1].isdigit() and path.split("/")[-1] not in ("type", "items")):
            return "%s: %r instead of %r" % (path, got, want)
        if got != want and got.startswith("#") and "/" in got and "symbols" not in path:
            return "%s: %r instead of %r" % (path, got, want)
        return None
    return None if got == want and type(got) is type(want) else "%s: %r instead of %r" % (path, got, want)


# ------------------------------------------------------------------ tools
BLANK = re.compile(rb"_:[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}")


def plain(data):
    """Random names of nameless types do not matter."""
    return BLANK.sub(b"_:blank", data) if isinstance(data, bytes) else data


def argv_of(scen):
    t, o = scen["tool"], scen["opts"]
    out = OUT + "/" + o.get("out", "result")
    if t == "pack":
        return [spelled(0, scen["where"])] + ([] if o["stdout"] else ["-o", out]) + (["--indent", str(o["indent"])] if o.get("indent") else [])
    if t == "schema":
        return [spelled(0, scen["where"])] + ([] if o["stdout"] else ["-o", out])
    if t in ("refactor", "normalize"):
        return list(o.get("flags", [])) + [OUT] + [spelled(i, scen["where"]) if i == 0 else "/sim/d%d/other%d.cwl" % (i, i) for i in range(len(scen["trees"]))]
    if t == "split":
        return ["-C", OUT, "-f", o["fmt"]] + (["-p"] if o.get("pretty") else []) + (["-m", o["main"]] if o.get("main") else []) + ["/sim/d0/packed.cwl"]
    raise ValueError(t)


def call(tool, argv):
    """What the console script does: -> exit status."""
    import cwl_utils.expression_refactor as er
    import cwl_utils.graph_split as gs
    import cwl_utils.inputs_schema_gen as ig
    import cwl_utils.normalizer as no
    import cwl_utils.pack_cli as pc
    m = {"pack": pc, "schema": ig, "refactor": er, "normalize": no, "split": gs}[tool]
    old = sys.argv
    sys.argv = ["cwl-" + tool] + argv
    try:
        rc = m.main()
    except SystemExit as e:
        rc = e.code
    finally:
        sys.argv = old
    return 0 if rc is None else rc


def source_files(scen):
    """-> files, expected documents, builders"""
    if scen["tool"] == "split":
        text, want = graph_doc(scen["graph"])
        return {"/sim/d0/packed.cwl": text}, want, None
    files, exps, links = {}, [], []
    for i, t in enumerate(scen["trees"]):
        root = "http://a.example/d0/main.cwl" if scen["where"] == "http" and i == 0 else "/sim/d%d/%s.cwl" % (i, "main" if i == 0 else "other%d" % i)
        f, e, b = docs.build(t, root)
        files.update(f)
        exps.append(e)
        links += [root] + b.links
    return files, exps, links


class Cli(Check):
    def setup(self):
        import cwl_utils.expression_refactor  # noqa: F401
        import cwl_utils.graph_split  # noqa: F401
        import cwl_utils.inputs_schema_gen  # noqa: F401
        import cwl_utils.normalizer  # noqa: F401
        import cwl_utils.pack_cli  # noqa: F401
        self.state = all_state()
        self.cache = {}
        from .boot import quiet_logging
        quiet_logging()

    # -------------------------------------------------------------- generation
    def tool_scen(self, rng, tool):
        s = {"tool": tool, "where": "abs", "opts": {}}
        if tool == "split":
            s["graph"] = gen_graph(rng)
            s["opts"] = {"fmt": rng.choice(["json", "yaml"]), "pretty": False, "main": rng.choice([None, None, "main.cwl", "wf"])}
            if s["opts"]["fmt"] == "yaml" and rng.random() < 0.3:
                s["opts"]["pretty"] = True
            return s
        o = {"onever": 1, "yaml11": 0, "budget": rng.choice([1, 2, 4]), "depth": rng.choice([0, 1, 1, 2]), "types": rng.choice([0, 0.4, 0.8]), "frag": rng.choice([0, 0.3, 0.5]), "chain": 0}
        if tool == "pack":
            o.update(remote=rng.choice([0, 0.3]), fragremote=rng.choice([0, 0.3]))
            s["where"] = rng.choice(["abs", "abs", "rel", "http"])
            s["opts"] = {"stdout": rng.random() < 0.4, "indent": rng.choice([None, 0, 2])}
            s["trees"] = [docs.Gen(rng, o).tree()]
        elif tool == "schema":
            o.update(remote=rng.choice([0, 0.3]), fragremote=rng.choice([0, 0.3]), types=rng.choice([0, 0.6, 0.9]), rectypes=rng.random() < 0.9)
            s["where"] = rng.choice(["abs", "file", "http"])
            s["opts"] = {"stdout": rng.random() < 0.25}
            s["trees"] = [docs.Gen(rng, o).tree(rng.choice(["wf", "tool"]))]
        else:
            o.update(remote=0.2 if tool == "refactor" else 0, fragremote=0.2 if tool == "refactor" else 0, exprs=rng.choice([0, 0.5, 0.9]), allver=rng.random() < 0.97, noids=rng.random() < 0.8)
            if tool == "normalize":
                o.update(types=rng.choice([0, 0, 0, 0.3]), fileloc=False)
                o["vers"] = rng.choice([["v1.2"], ["v1.2"], ["v1.1"], ["v1.0"]])
                o["fragremote"] = 0
                if o["vers"] != ["v1.2"]:
                    o["frag"] = 0
            fl = rng.choice([[], [], ["--etools"], ["--skip-some1"], ["--skip-some2"]])
            if tool == "normalize" and rng.random() < 0.2:
                fl = ["--no-expression-refactoring"]
                o.update(budget=1, depth=0, frag=0, types=0)
                if rng.random() < 0.7:
                    o["onlytool"] = True
            s["opts"] = {"flags": fl}
            s["where"] = rng.choice(["abs", "rel"])
            s["trees"] = [docs.Gen(rng, o, first=1000 * i).tree("tool" if o.get("onlytool") else None) for i in range(rng.choices([1, 2], [3, 1])[0])]
        return s

    def fault(self, rng, tool, crash=0.2):
        x = rng.random()
        if x < crash:
            return {"t": "fs", "k": "crash", "op": rng.choice(["any", "mut", "write"]), "frac": rng.random(), "on": rng.choice([None, "out"]), "after": rng.random() < 0.5, "keep": rng.choice([0, 0.4, 0.9])}
        if x < crash + 0.3:
            return {"t": "fs", "k": "errno", "op": rng.choice(["any", "mut", "write", "close", "open", "create", "read"]), "frac": rng.random(), "errno": rng.choice([5, 13, 28, 12, 122, 30]), "on": rng.choice([None, "out", "out", "stdout"])}
        if x < crash + 0.4:
            return {"t": "fs", "k": "full", "op": "write", "frac": rng.random(), "keep": rng.choice([0, 0.5, 0.9]), "on": "any-out"}
        if x < crash + 0.48:
            return {"t": "fs", "k": "interrupt", "op": rng.choice(["any", "write", "mut"]), "frac": rng.random(), "on": rng.choice([None, "out"])}
        if x < crash + 0.55:
            return {"t": "fs", "k": "short", "op": "write", "frac": rng.random(), "keep": rng.choice([0.1, 0.5]), "on": "any-out"}
        if tool == "split":
            return {"t": "file", "k": rng.choice(["broken", "missing", "errno"]), "link": 0, "op": "read", "errno": 5, "at": 0}
        return rng.choice(gen_faults(rng, 12))

    def lives(self, rng, tool, crash=0.2):
        out = []
        for i in range(rng.choices([1, 2, 3], [3, 3, 1])[0]):
            L = {"fresh": rng.random() < 0.7}
            if rng.random() < 0.85:
                L["faults"] = [self.fault(rng, tool, crash) for _ in range(rng.choices([1, 2], [5, 1])[0])]
            if rng.random() < 0.15:
                L["p_short_write"] = 0.5
            if rng.random() < 0.12:
                L["edit"] = 1
            out.append(L)
        out.append({"fresh": rng.random() < 0.6, "edit": 1 if rng.random() < 0.1 else 0})
        return out

    # -------------------------------------------------------------- execution
    def world(self, sim, scen):
        sim.world = None
        fs = FS(sim, scen.get("salt", 0))
        net = Net(sim)
        return fs, net

    def run_life(self, sim, fs, net, scen, files, links, L, rec, before_run=None):
        """One process: the tool with this life's faults.  Runs inside the simulation."""
        st = sim.threads[0]
        tool = scen["tool"]
        fs.active = False
        put_files(fs, net, files, L.get("edit", 0))
        fs.active = True
        fs.lifetime(cwd="/sim/work")
        net.lifetime()
        fs.p_short_write = L.get("p_short_write", 0)
        fl = Faults(fs, net, links or list(files))
        if "counts" in rec:
            fl.apply(st, [f for f in L.get("faults", []) if f["t"] != "fs"])
            for f in L.get("faults", []):
                if f["t"] == "fs":
                    d = self.place(f, rec["counts"])
                    if d:
                        fs.faults.append(d)
        fs.active = False
        rec["before"] = fs.tree("/sim")
        fs.active = True
        home, tmp = os.environ.get("HOME"), os.environ.get("TMPDIR")
        os.environ["HOME"], os.environ["TMPDIR"] = "/sim/home", "/sim/tmp"
        import tempfile
        tempfile.tempdir = None
        try:
            with Std(fs) as std:
                try:
                    if before_run:
                        rec["out"] = before_run(fs)
                    else:
                        rec["out"] = call(tool, argv_of(scen))
                except core.SimExit:
                    raise
                except SimCrash:
                    rec["out"] = "crash"
                except KeyboardInterrupt:
                    rec["out"] = "interrupt"
                except BaseException as e:
                    rec["out"] = "raise %s: %s" % (type(e).__name__, str(e)[:300])
                    rec["oserr"] = isinstance(e, OSError)
                    del e
                gc.collect()       # the interpreter ends: what still waits for collection is finalised
                if fs.crashed:
                    rec["out"] = "crash"
                if rec["out"] != "crash":
                    fin = std.finish()
                    if fin == "crash":
                        rec["out"] = "crash"
                    elif not fin and rec["out"] == 0:
                        rec["out"] = 120
                rec["stdout"] = bytes(std.node.data)
        finally:
            os.environ["HOME"], os.environ["TMPDIR"] = home, tmp
            tempfile.tempdir = None
        st.ki_at = st.ki_exc = None
        rec["fired"] = fs.hit + net.hit + (["interrupt"] if rec["out"] == "interrupt" else [])
        rec["lasting"] = fl.lasting
        rec["log"] = list(fs.log)
        rec["hit_paths"] = list(fs.hit_paths)
        fs.active = False
        rec["after"] = fs.tree("/sim")
        fl.restore()
        for p in list(rec["after"]):       # the next process finds an empty temporary directory and cache
            if p.startswith("/sim/tmp/"):
                fs.k_unlink_tree(p)
        fs.active = True
        fs.p_short_write = 0
        sim.trace("life", tool, str(rec["out"])[:20])
        sim.sleep(1.0)

    def place(self, f, log):
        """Turn a fault at a fraction of the run into one at an operation."""
        d = {k: v for k, v in f.items() if k not in ("t", "frac", "on")}
        on = {"out": OUT, "stdout": "/sim/dev/stdout", None: None, "any-out": None}[f["on"]]
        if on:
            d["where"] = on
        mut = ("write", "rename", "unlink", "mkdir", "create", "truncate", "close", "fsync", "link", "symlink", "rmdir", "chmod")
        n = sum(1 for o, p in log if (f["op"] == "any" or o == f["op"] or f["op"] == "mut" and o in mut) and (not on or on in p))
        if n == 0:
            if on is None:
                return None
            d.pop("where")
            return self.place(dict(f, on=None), log)
        d["at"] = min(n - 1, int(f["frac"] * n))
        return d

    def golden(self, scen, files, links, edit):
        key = json.dumps([argv_of(scen), scen.get("trees"), scen.get("graph"), edit, scen["tool"]], sort_keys=True)
        if key in self.cache:
            return self.cache[key]
        sim = core.Sim(12345, None, {"p_fast": 1.0, "log": False, "max_points": 400000, "max_time": 50000.0})
        fs, net = self.world(sim, scen)
        self.state.restore()
        fs.k_mkdir(OUT)
        rec = {}
        sim.run([("T0", lambda: self.run_life(sim, fs, net, scen, files, links, {"edit": edit}, rec))])
        if sim.errors:
            rec["errors"] = list(sim.errors)
        if len(self.cache) > 300:
            self.cache.clear()
        g = {"out": rec.get("out"), "files": {p: d for p, d in rec.get("after", {}).items() if p.startswith(OUT + "/") and p != OUT + "/keep.txt"}, "stdout": rec.get("stdout"), "log": rec.get("log", []), "errors": rec.get("errors"), "abort": sim.abort_reason}
        self.cache[key] = g
        return g

    def execute(self, scen, seed, replay=None, log=False):
        res = Result()
        files, exp, links = source_files(scen)
        gold = {}
        for e in sorted({L.get("edit", 0) for L in scen["lives"]}):
            gold[e] = self.golden(scen, files, links, e)
            if gold[e]["errors"]:
                res.errors = gold[e]["errors"]
                return res
        sim = core.Sim(seed, replay, dict(scen["cfg"], log=log, max_points=400000, max_time=50000.0))
        fs, net = self.world(sim, scen)
        net.p_split = scen.get("p_split", 0)
        fs.p_short_read = scen.get("p_short_read", 0)
        hist = []
        self.state.restore()
        pre = scen.get("pre")
        if pre != "nodir":
            fs.k_mkdir(OUT)
        if pre == "stale":
            g = gold[scen["lives"][0].get("edit", 0)]
            for p, d in g["files"].items():
                if isinstance(d, bytes):
                    mkdirs(fs, posixpath.dirname(p))
                    fs.k_write(p, b"stale " * (len(d) // 3 + 2))
        fs.k_write("/sim/work/keep.txt", b"keep")
        if pre not in ("nodir",):
            fs.k_write(OUT + "/keep.txt", b"keep")

        def main():
            for i, L in enumerate(scen["lives"]):
                if L.get("fresh", True):
                    self.state.restore()
                rec = {"i": i, "L": L, "counts": gold[L.get("edit", 0)]["log"]}
                self.run_life(sim, fs, net, scen, files, links, L, rec)
                hist.append(rec)
                if rec["out"] == "crash" and i + 1 < len(scen["lives"]):
                    scen["lives"][i + 1]["fresh"] = True
        sim.run([("T0", main)])
        if sim.abort_reason not in (None, "drivers-done"):
            res.inconclusive = sim.abort_reason
        self.judge_gold(scen, gold, exp, res)
        for r in hist:
            self.judge(scen, r, gold[r["L"].get("edit", 0)], files, res)
        res.take(sim)
        res.ops = len(hist)
        return res

    # -------------------------------------------------------------- judging
    def judge_gold(self, scen, gold, exp, res):
        for e, g in gold.items():
            k = "golden-" + scen["tool"] + "-" + str(g["out"]).split(":")[0]
            res.probes[k] = res.probes.get(k, 0) + 1
            if g["out"] not in (0, 7):
                res.probes["golden-fails"] = res.probes.get("golden-fails", 0) + 1
                continue
            t = scen["tool"]
            if t == "pack":
                data = g["stdout"] if scen["opts"]["stdout"] else g["files"].get(OUT + "/result")
                try:
                    d = docs.compare(json.loads(data), retok(exp[0], e), [])
                except Exception as x:
                    d = repr(x)
                if d:
                    res.violate("incomplete", "clean pack: " + d)
            elif t == "schema":
                data = g["stdout"] if scen["opts"]["stdout"] else g["files"].get(OUT + "/result")
                try:
                    js = json.loads(data)
                    want = {i["id"] for i in exp[0]["inputs"]}
                    if set(js["properties"]) != want or js["type"] != "object" or not set(js["required"]) <= want:
                        res.violate("incomplete", "clean schema generation gives the properties %s for the inputs %s" % (sorted(js["properties"]), sorted(want)))
                except Exception as x:
                    res.violate("incomplete", "clean schema generation: %r" % x)
            elif t == "split":
                self.judge_split(scen, g, exp, e, res)
            else:
                n = len([p for p in g["files"] if isinstance(g["files"][p], bytes)])
                if g["out"] == 0 and n < len(scen["trees"]):
                    res.violate("incomplete", "clean %s succeeded with %d output files for %d documents" % (t, n, len(scen["trees"])))

    def judge_split(self, scen, g, want, e, res):
        from ruamel.yaml import YAML
        main = scen["opts"].get("main")
        names = {}
        for f in want:
            n = f
            if f == "main.cwl":
                n = (main[:-4] if main.endswith(".cwl") else main) + ".cwl" if main else "unpacked_packed.cwl"
            names[f] = n
        got = {p[len(OUT) + 1:]: d for p, d in g["files"].items() if isinstance(d, bytes)}
        if set(got) != set(names.values()):
            res.violate("wrong-files", "clean split gives %s instead of %s" % (sorted(got), sorted(names.values())))
            return
        for f, n in names.items():
            w = retok(want[f], e)
            try:
                v = json.loads(got[n]) if scen["opts"]["fmt"] == "json" and f.endswith(".cwl") else YAML(typ="safe", pure=True).load(got[n].decode())
            except Exception as x:
                res.violate("unreadable", "%s of a clean split: %s: %s" % (n, type(x).__name__, str(x)[:200]))
                continue
            if isinstance(w, list) and len(w) == 1 and isinstance(v, dict):
                w = w[0]
            d = same(v, w)
            if d:
                res.violate("wrong-part", "%s of a clean split: %s" % (n, d))

    def judge(self, scen, r, g, files, res):
        L = r["L"]
        what = "run %d of %s (faults %s%s): %s" % (r["i"], " ".join([scen["tool"]] + argv_of(scen)), r["fired"] + ["%s %s" % (k, u) for u, k in r["lasting"]], "" if L.get("fresh", True) else ", same process", r["out"])
        o = str(r["out"]).split(" ")[0]
        res.probes["out-" + o] = res.probes.get("out-" + o, 0) + 1
        b, a = r["before"], r["after"]
        for p in sorted(set(b) | set(a)):
            if p.startswith((OUT + "/", "/sim/home/", "/sim/dev")) or p == OUT or a.get(p) == b.get(p):
                continue
            if p.startswith("/sim/tmp/"):
                if r["out"] != "crash" and not any(h.split("@")[-1] in ("unlink", "rmdir", "open", "stat", "listdir", "scandir", "chmod", "rename", "close") for h in r["fired"]) and "interrupt" not in r["fired"]:
                    res.violate("temp-left", "%s: left %s" % (what, p))
                continue
            if p in b and isinstance(b[p], bytes):
                res.violate("source-changed", "%s: changed %s" % (what, p))
            elif p not in b:
                res.violate("stray-file", "%s: left %s" % (what, p))
        if OUT + "/keep.txt" in b and a.get(OUT + "/keep.txt") != b"keep":
            res.violate("other-file-changed", "%s: keep.txt in the output directory" % what)
        clean = not r["fired"] and not r["lasting"]
        if r["out"] in (0, 7) and r["out"] == g["out"]:
            if r["lasting"] and not clean and self.needed(scen, r):
                res.violate("failure-hidden", what)
            now = {p: d for p, d in a.items() if p.startswith(OUT + "/") and p != OUT + "/keep.txt"}
            for p, d in g["files"].items():
                if plain(now.get(p)) != plain(d):
                    res.violate("incomplete", "%s: %s holds %s, after a first clean run %s" % (what, p, docs.short(now.get(p)), docs.short(d)))
            extra = sorted(set(now) - set(g["files"]))
            if extra and scen.get("pre") != "stale" and not any(x.get("edit") for x in scen["lives"]):
                res.violate("extra-files", "%s: there are also %s" % (what, extra))
            if plain(r["stdout"]) != plain(g["stdout"]):
                res.violate("incomplete", "%s: standard output %s, first clean run %s" % (what, docs.short(r["stdout"]), docs.short(g["stdout"])))
        elif r["out"] in (0, 7):
            res.violate("failure-hidden", "%s; a clean run gives %s" % (what, g["out"]))
        elif clean and g["out"] in (0, 7):
            res.violate("fails", "%s although nothing went wrong" % what)

    def needed(self, scen, r):
        """Is a file that could not be read certainly needed?"""
        root = "/sim/d0/packed.cwl" if scen["tool"] == "split" else "http://a.example/d0/main.cwl" if scen["where"] == "http" else "/sim/d0/main.cwl"
        return any(u == root for u, k in r["lasting"])

    def shrinks(self, scen):
        for l in list_shrinks(scen["lives"]):
            if l:
                yield dict(scen, lives=l)
        for i, L in enumerate(scen["lives"]):
            def put(x):
                return dict(scen, lives=scen["lives"][:i] + [x] + scen["lives"][i + 1:])
            for fl in list_shrinks(L.get("faults", [])):
                yield put(dict(L, faults=fl))
            for k in ("edit", "p_short_write"):
                if L.get(k):
                    yield put({a: b for a, b in L.items() if a != k})
            if not L.get("fresh", True):
                yield put(dict(L, fresh=True))
        for k in ("pre", "p_split", "p_short_read"):
            if scen.get(k):
                yield dict(scen, **{k: None})
        if scen["tool"] == "split":
            g = scen["graph"]
            for i, p in enumerate(g["procs"]):
                if p["id"] != "main" and not any(st["run"] == p["id"] for q in g["procs"] for st in q.get("steps", [])):
                    yield dict(scen, graph=dict(g, procs=g["procs"][:i] + g["procs"][i + 1:]))
                for k in ("inputs", "steps"):
                    if len(p.get(k, [])) > 1:
                        yield dict(scen, graph=dict(g, procs=g["procs"][:i] + [dict(p, **{k: p[k][:-1]})] + g["procs"][i + 1:]))
        else:
            if len(scen["trees"]) > 1:
                yield dict(scen, trees=scen["trees"][:1])
            for i, t in enumerate(scen["trees"]):
                for x in docs.shrink_tree(t):
                    yield dict(scen, trees=scen["trees"][:i] + [x] + scen["trees"][i + 1:])


class C08(Cli):
    id = "C08"

    def gen(self, rng, tier):
        tool = rng.choices(["pack", "schema", "refactor", "normalize", "split"], [3, 3, 3, 3, 2])[0]
        s = self.tool_scen(rng, tool)
        s["lives"] = self.lives(rng, tool)
        s["pre"] = rng.choice([None, None, "stale"])
        s["salt"] = rng.randrange(3)
        s["p_split"] = rng.choice([0, 0.4])
        s["p_short_read"] = rng.choice([0, 0.3])
        s["cfg"] = {"p_fast": rng.choice([1.0, 0.8])}
        return s


class C14(Cli):
    id = "C14"

    def gen(self, rng, tier):
        s = self.tool_scen(rng, "split")
        s["lives"] = self.lives(rng, "split", 0.35)
        s["pre"] = rng.choice([None, None, "stale", "nodir"])
        s["salt"] = rng.randrange(3)
        s["p_short_read"] = rng.choice([0, 0.3])
        s["cfg"] = {"p_fast": 1.0}
        return s


class C09(Cli):
    id = "C09"

    def gen(self, rng, tier):
        s = self.tool_scen(rng, "schema")
        s["opts"]["stdout"] = False
        s["lives"] = []
        for i in range(rng.randint(1, 3)):
            L = {"fresh": rng.random() < 0.6, "old": rng.choice(["old", "old", None, "keep", "empty"])}
            x = rng.random()
            if x < 0.85:
                L["faults"] = [f for f in [self.fault(rng, "schema", 0.15)] if True]
            if rng.random() < 0.1:
                L["edit"] = 1
            s["lives"].append(L)
        s["lives"].append({"fresh": rng.random() < 0.5, "old": rng.choice(["old", None, "keep"])})
        s["p_split"] = rng.choice([0, 0.4])
        s["p_short_read"] = rng.choice([0, 0.3])
        s["bad"] = rng.random() < 0.15       # the document has an input no schema can be given for
        if s["bad"]:
            s["trees"][0]["root"]["inputs"].append({"id": "bad", "t": "stdin" if False else "nosuchtype%d" % rng.randrange(9)})
        s["cfg"] = {"p_fast": rng.choice([1.0, 0.8])}
        return s

    def execute(self, scen, seed, replay=None, log=False):
        import cwl_utils.inputs_schema_gen as ig
        res = Result()
        files, exp, links = source_files(scen)
        gold = {}
        for e in sorted({L.get("edit", 0) for L in scen["lives"]}):
            gold[e] = self.golden(scen, files, links, e)
            if gold[e]["errors"]:
                res.errors = gold[e]["errors"]
                return res
        sim = core.Sim(seed, replay, dict(scen["cfg"], log=log, max_points=400000, max_time=50000.0))
        fs, net = self.world(sim, scen)
        net.p_split = scen.get("p_split", 0)
        fs.p_short_read = scen.get("p_short_read", 0)
        self.state.restore()
        fs.k_mkdir(OUT)
        hist = []
        path = OUT + "/result"

        def main():
            for i, L in enumerate(scen["lives"]):
                if L.get("fresh", True):
                    self.state.restore()
                fs.active = False
                if L["old"] == "old":
                    fs.k_write(path, b"previous schema of generation %d " % i + b"x" * 9000)
                elif L["old"] == "empty":
                    fs.k_write(path, b"")
                elif L["old"] is None and fs.k_exists(path):
                    fs.k_unlink(path)
                fs.active = True
                rec = {"i": i, "L": L, "counts": gold[L.get("edit", 0)]["log"]}

                def tool(fs):
                    args = None
                    try:
                        args = ig.parse_args(argv_of(scen))
                        return ig.run(args)
                    except SystemExit as x:
                        return x.code
                    finally:
                        # what others can see when the tool returns
                        fs.active = False
                        rec["at_return"] = fs.k_read(path) if fs.k_exists(path) else None
                        fs.active = True
                        del args
                self.run_life(sim, fs, net, scen, files, links, L, rec, before_run=tool)
                hist.append(rec)
                if rec["out"] == "crash" and i + 1 < len(scen["lives"]):
                    scen["lives"][i + 1]["fresh"] = True
        sim.run([("T0", main)])
        if sim.abort_reason not in (None, "drivers-done"):
            res.inconclusive = sim.abort_reason
        self.judge_gold(scen, gold, exp, res)
        for r in hist:
            g = gold[r["L"].get("edit", 0)]
            o = str(r["out"]).split(" ")[0]
            res.probes["out-" + o] = res.probes.get("out-" + o, 0) + 1
            what = "run %d of schema generation for %s (faults %s%s%s): %s" % (r["i"], spelled(0, scen["where"]), r["fired"] + ["%s %s" % (k, u) for u, k in r["lasting"]],
                                                                             "" if r["L"].get("fresh", True) else ", same process", ", bad type" if scen["bad"] else "", r["out"])
            old, new = r["before"].get(path), r["after"].get(path)
            if r["out"] == 0:
                if g["out"] != 0:
                    res.violate("failure-hidden", "%s; a clean run gives %s" % (what, g["out"]))
                elif plain(r["at_return"]) != plain(g["files"].get(path)):
                    res.violate("incomplete", "%s: when the tool returns the file holds %s" % (what, docs.short(r["at_return"])))
                elif plain(new) != plain(g["files"].get(path)):
                    res.violate("incomplete", "%s: the file holds %s" % (what, docs.short(new)))
            else:
                if not any(p.startswith(OUT) for p in r["hit_paths"]) and "full" not in " ".join(r["fired"]):
                    if new != old:
                        res.violate("output-touched", "%s: the file held %s and now %s" % (what, docs.short(old), docs.short(new)))
                if not r["fired"] and not r["lasting"] and g["out"] == 0:
                    res.violate("fails", what + " although nothing went wrong")
        res.take(sim)
        res.ops = len(hist)
        return res

    def shrinks(self, scen):
        yield from super().shrinks(scen)

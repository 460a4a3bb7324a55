"""C16: mixtures of library operations on shared documents, in any order, after failures, in threads, under other hash seeds."""
import copy
import json
import os
import posixpath
import re
import subprocess
import sys

from . import canon, core, docs, procs
from .base import strict_eq
from .c05 import C05, gen_inputs, thaw, thaw_all
from .c06 import where
from .c12 import LoadBase
from .fs import Std

SHARED = ("dump", "save", "schema", "check", "types", "docker", "software")
STEP = re.compile(r"/steps/\d+/hints/[^/]*(/|$)(?!.*/hints/)")


class HintLink(Exception):
    """A load gave a hint with a link in it (a known finding); what is done with the document tells nothing more."""


class Oracle:
    """A fresh process under another hash seed, doing one operation at a time."""
    def __init__(self, cid, seed):
        if os.environ.get("SIM_ORACLE"):
            raise core.HarnessError("an oracle process asks another one")
        env = dict(os.environ, PYTHONHASHSEED=str(seed), SIM_ORACLE="1")
        self.r, cw = procs.o_pipe()
        cr, self.w = procs.o_pipe()
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.p = procs.RealPopen([sys.executable, "-m", "sim.worker", "oracle", cid], stdin=cr, stdout=cw, stderr=subprocess.DEVNULL, env=env, cwd=here)
        procs.o_close(cr)
        procs.o_close(cw)
        self.buf = b""

    def ask(self, q):
        data = json.dumps(q).encode() + b"\n"
        mv = memoryview(data)
        while len(mv):
            mv = mv[procs.o_write(self.w, mv):]
        while b"\n" not in self.buf:
            if not procs.o_select([self.r], [], [], 120)[0]:
                raise core.HarnessError("the oracle process does not answer")
            d = procs.o_read(self.r, 1 << 20)
            if not d:
                raise core.HarnessError("the oracle process died")
            self.buf += d
        line, _, self.buf = self.buf.partition(b"\n")
        return json.loads(line)


class C16(LoadBase):
    id = "C16"
    oracle_child = False

    def setup(self):
        import cwl_utils.expression_refactor  # noqa: F401
        import cwl_utils.inputs_schema_gen  # noqa: F401
        import cwl_utils.parser.utils  # noqa: F401
        super().setup()
        self.fields = C05()
        self.oracles = {}

    def answer(self, q):
        """In an oracle process."""
        scen, op = q["scen"], q["op"]
        return self.golden(scen, self.builds(scen), op)

    # -------------------------------------------------------------- generation
    def gen(self, rng, tier):
        self.inputs = [gen_inputs(rng, "i%d.%d" % (i, rng.randint(0, 999))) for i in range(2)]
        s = super().gen(rng, tier)
        s["inputs"] = self.inputs
        if rng.random() < 0.25:
            s["hashseed"] = rng.choice([1, 2])
        return s

    def gen_docs(self, rng, n):
        out = []
        for i in range(n):
            kind = rng.choice(["plain", "types", "exprs", "exprs"])
            o = {"plain": dict(allver=1), "types": dict(allver=1, types=0.9, rectypes=True, frag=rng.choice([0, 0.3])),
                 "exprs": dict(exprs=0.9, allver=1, noids=rng.random() < 0.8, types=0, frag=rng.choice([0, 0.3]))}[kind]
            d = super().gen_docs(rng, 1, i, budget=rng.choice([2, 3, 4]), **o)[0]
            if kind == "exprs" and d["tree"].get("members"):
                d["tree"].pop("members")
                d["tree"] = docs.Gen(rng, {"onever": 1, "yaml11": 0, "chain": 0, "budget": 3, "depth": 1, "exprs": 0.9, "noids": True, "types": 0, "frag": 0}, first=1000 * i).tree()
            out.append(d)
        return out

    def gen_op(self, rng, ds, nth):
        i = rng.randrange(len(ds))
        what = rng.choices(["dump", "save", "pack", "refactor", "schema", "check", "types", "docker", "software", "eval", "inputfile"], [3, 2, 2, 3, 2, 2, 2, 1, 1, 2, 1])[0]
        op = {"doc": i, "what": what}
        if what in SHARED:
            op["on"] = rng.choice(["shared", "shared", "new", "string", "yaml"])
        if what == "save":
            op["rel"] = rng.random() < 0.7
        if what == "refactor":
            op["flags"] = rng.choice([[True, False, False], [True, False, False], [False, False, False], [True, True, False], [True, False, True]])
        if what == "eval":
            f = self.fields.gen_op(rng, self.inputs, "e%d" % rng.randint(0, 99), set())
            f["js"] = False
            f["segs"] = [x for x in f["segs"] if x[0] != "j"] or [["t", "x"]]
            op["f"] = {k: f[k] for k in ("in", "self", "res", "outdir", "tmpdir", "ver", "js", "strip", "ws", "segs")}
        if what == "inputfile":
            op["via"] = rng.choice(["yaml", "string", "uri"])
        return op

    def key(self, op):
        return {k: v for k, v in op.items() if k not in ("doc", "on", "faults", "edit")} if op["what"] != "inputfile" else ["inputfile"]

    def builds(self, scen):
        out = []
        for i, d in enumerate(scen["docs"]):
            f, e, b = docs.build(d["tree"], self.root(scen, i))
            f[self.job(scen, i)] = json.dumps({"i0": "in%d" % i, "f": {"class": "File", "location": "data/a.txt", "secondaryFiles": [{"class": "File", "location": "../b.txt"}]},
                                               "d": {"class": "Directory", "location": "sub dir"}, "l": [1, None, {"class": "File", "path": "c"}], "r": {"x": {"class": "File", "location": "http://a.example/z"}}})
            out.append((f, e, b))
        return out

    def job(self, scen, d):
        return posixpath.dirname(self.root(scen, d)) + "/job.yml"

    def golden(self, scen, builds, op):
        d = op["doc"]
        key = json.dumps([scen["docs"][d], scen["inputs"] if op["what"] == "eval" else 0, d, op.get("edit", 0), self.key(op)], sort_keys=True)
        if key in self.cache:
            return self.cache[key]
        g = super().golden(scen, builds, {k: v for k, v in op.items() if k not in ("on", "faults")})
        g = json.loads(json.dumps(g))
        self.cache[key] = g
        return g

    # -------------------------------------------------------------- execution
    def load(self, scen, op, fs, net, keep, kept):
        v = self.load1(scen, op, fs, net, keep, kept)
        if kept is not None and op.get("faults"):
            raw = [p for p in canon.raw_links(canon.dump(v)) if not STEP.search(p)]
            if raw and all("/hints/" in p for p in raw):
                keep.pop(("obj", op["doc"]), None)
                raise HintLink(raw[0])
        return v

    def load1(self, scen, op, fs, net, keep, kept):
        cp = self.cp
        root = self.root(scen, op["doc"])
        uri = root if docs.is_remote(root) else "file://" + root
        on = op.get("on", "new")
        if on == "shared":
            k = ("obj", op["doc"])
            if k not in keep:
                v = keep[k] = cp.load_document_by_uri(uri)
                if kept is not None:
                    kept.append(("a document loaded by an earlier operation (%s)" % root, v, canon.dump(v)))
            return keep[k]
        if on == "string":
            return cp.load_document_by_string(self.text_of(fs, net, root), uri)
        if on == "yaml":
            k = ("yaml", op["doc"])
            if k not in keep:
                y = keep[k] = self.su.yaml_no_ts().load(self.text_of(fs, net, root))
                if kept is not None:
                    kept.append(("the mapping of a document (%s)" % root, y, canon.dump(y)))
            return cp.load_document_by_yaml(keep[k], uri)
        return cp.load_document_by_uri(uri)

    def perform(self, scen, op, fs, net, keep, kept=None):
        cp = self.cp
        what = op["what"]
        root = self.root(scen, op["doc"])
        if what == "eval":
            import cwl_utils.expression as ex
            f = op["f"]
            lv = keep.setdefault(("inputs", f["in"]), None)
            if lv is None:
                lv = keep["inputs", f["in"]] = thaw(scen["inputs"][f["in"]], True)
                if kept is not None:
                    kept.append(("an input object", AsText(lv), canon.dump(AsText(lv))))
            reqs = [{"class": "ResourceRequirement"}]
            v = ex.do_eval(self.fields.field(f), lv, reqs, f["outdir"], f["tmpdir"], dict(f["res"]), context=f["self"], strip_whitespace=f["strip"], cwlVersion=f["ver"])
            return copy.deepcopy(v), None
        if what == "inputfile":
            import cwl_utils.parser.utils as pu
            ver = re.search(r'cwlVersion"?: "?(v1\.\d)', self.text_of(fs, net, root)).group(1)
            job = self.job(scen, op["doc"])
            uri = job if docs.is_remote(job) else "file://" + job
            if op["via"] == "uri":
                v = pu.load_inputfile_by_uri(ver, uri)
            else:
                t = self.text_of(fs, net, job)
                if op["via"] == "string":
                    v = pu.load_inputfile(ver, t, uri)
                else:
                    k = ("job", op["doc"])
                    y = keep.get(k)
                    if y is None:
                        y = keep[k] = self.su.yaml_no_ts().load(t)
                        if kept is not None:
                            kept.append(("the mapping of an input file", y, canon.dump(y)))
                    v = pu.load_inputfile(ver, y, uri)
            return canon.dump(v), None
        if what == "pack":
            import cwl_utils.pack as pk
            with Std(fs):
                try:
                    return canon.dump(pk.pack(root)), None
                except SystemExit as e:
                    raise RuntimeError("SystemExit %s" % e)
        top = self.load(scen, op, fs, net, keep, kept)
        if what == "dump":
            return canon.dump(top), None
        if what == "save":
            return canon.dump(cp.save(top, relative_uris=op["rel"])), None
        if what == "schema":
            import cwl_utils.inputs_schema_gen as ig
            return canon.dump(ig.cwl_to_jsonschema(top)), None
        if what == "check":
            import cwl_utils.parser.utils as pu
            return pu.static_checker(top), None
        if what == "types":
            return self.types(top), None
        if what in ("docker", "software"):
            import cwl_utils.cite_extract as ce
            import cwl_utils.docker_extract as de
            return [canon.dump(x.save()) for x in (de if what == "docker" else ce).traverse(top)], None
        assert what == "refactor"
        import importlib
        m = importlib.import_module("cwl_utils." + type(top).__module__.rsplit(".", 1)[-1] + "_expression_refactor")
        a = op["flags"]
        v, mod = m.traverse(top, a[0], False, a[1], a[2])
        return [bool(mod), canon.dump(cp.save(v, base_url=v.loadingOptions.fileuri or ""))], None

    def types(self, top):
        import cwl_utils.parser.utils as pu
        out = []

        def one(f, *a, **k):
            try:
                out.append(canon.dump(f(*a, **k)))
            except (core.SimExit, KeyboardInterrupt, OSError):
                raise
            except Exception as e:
                if not type(e).__module__.startswith("cwl_utils.") and "not found in" not in str(e):
                    raise
                out.append("raises " + type(e).__name__)
        for i in top.inputs:
            one(pu.type_for_source, top, top.cwlVersion, i.id)
        for st in getattr(top, "steps", None) or []:
            for i in st.in_:
                one(pu.type_for_step_input, st, i, top.cwlVersion)
                if i.source:
                    one(pu.type_for_source, top, top.cwlVersion, i.source, linkMerge=i.linkMerge)
            for o in st.out:
                one(pu.type_for_step_output, st, o if isinstance(o, str) else o.id, top.cwlVersion)
        for o in top.outputs:
            src = getattr(o, "outputSource", None)
            if src:
                one(pu.type_for_source, top, top.cwlVersion, src)
        return out

    # -------------------------------------------------------------- oracle
    def judge_gold(self, scen, builds, gold, res):
        seen = set()
        for ops in scen["threads"]:
            for op in ops:
                k = json.dumps([op["doc"], op.get("edit", 0), self.key(op)])
                if k in seen:
                    continue
                seen.add(k)
                g = gold[id(op)]
                n = "golden-%s-%s" % (op["what"], g[0])
                res.probes[n] = res.probes.get(n, 0) + 1
                if op["what"] == "eval":
                    ref = self.fields.reference(scen, op["f"])
                    if (ref[0] == "value") != (g[0] == "ok") or g[0] == "ok" and not strict_eq(g[1], ref[1]):
                        res.violate("differs", "a first evaluation of %r gives %s, must give %s" % (self.fields.field(op["f"]), g[:2], ref))
                hs = scen.get("hashseed")
                if hs and not self.oracle_child:
                    if hs not in self.oracles:
                        self.oracles[hs] = Oracle(self.id, hs)
                    q = {"scen": {"docs": scen["docs"], "inputs": scen["inputs"]}, "op": {k: v for k, v in op.items() if k not in ("faults", "on")}}
                    o = self.oracles[hs].ask(q)
                    res.probes["hashseed"] = res.probes.get("hashseed", 0) + 1
                    if o[0] != g[0] or self.msg(o[1]) != self.msg(g[1]):
                        res.violate("hash-seed", "%s in a fresh process gives with another hash seed: %s" % (self.describe(op), where(self.msg(o[1]), self.msg(g[1]))))

    def msg(self, v):
        if isinstance(v, str):
            return canon.ADDR.sub("0x", canon.text(v))
        return v

    def judge(self, scen, r, g, nth, res):
        if r["out"] == "raise" and r["msg"].startswith("HintLink: ") and r["faulty"]:
            res.violate("hint-unresolved", "thread %d of %d, %s (faults %s): loads, with the link instead of its content at %s" % (r["t"], nth, self.describe(r["op"]), r["fired"], r["msg"][10:]), sig="hint:raw-link")
            return
        if "v" in r:
            r["v"] = json.loads(json.dumps(r["v"]))
        super().judge(scen, r, g, nth, res)
        if r["out"] == "raise" and g[0] == "raise" and not r["faulty"] and self.msg(r["msg"]) != self.msg(g[1]):
            res.violate("differs", "thread %d of %d, %s raises %s; in a fresh process %s" % (r["t"], nth, self.describe(r["op"]), r["msg"], g[1]))

    def shrinks(self, scen):
        if scen.get("hashseed"):
            yield {k: v for k, v in scen.items() if k != "hashseed"}
        yield from super().shrinks(scen)


class AsText:
    """An input object whose byte strings may have been decoded."""
    def __init__(self, v):
        self.v = v

    def items(self):
        return thaw_all(self.v).items()

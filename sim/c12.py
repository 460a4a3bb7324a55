"""C12, C15: loading documents and extracting requirements over failing files and networks, with retries, histories and threads."""
import contextlib
import copy
import io
import json
import os
import posixpath
import re
import urllib.parse
from pathlib import Path

from . import canon, core, docs
from .base import Check, Result, list_shrinks
from .c06 import Faults, gen_faults, mkdirs, put_files, retok, where
from .c08 import all_state
from .fs import FS, Std
from .net import Net

CONTENT = ("label", "doc", "expressionLib", "dockerPull", "dockerFile", "dockerImageId", "package", "version", "envName", "envValue", "valueFrom", "glob", "baseCommand", "arguments",
           "prefix", "ex:note", "value")


def join(base, link):
    if link.startswith("http:"):
        return link
    if link.startswith("file://"):
        return link[7:]
    if docs.is_remote(base):
        return urllib.parse.urljoin(base, link)
    return link if link.startswith("/") else posixpath.normpath(posixpath.join(posixpath.dirname(base), link))


def content(b, root, raw=None):
    """The texts the document holds once its imports and includes are followed (not the processes its steps refer to),
    and those that are included by hints of its steps."""
    out, late = set(), set()

    def walk(v, base, key, step):
        if isinstance(v, dict):
            if "$import" in v:
                u = join(base, v["$import"])
                walk(b.vals[b.files[u]], u, key, step)
            elif "$include" in v:
                if key in CONTENT:
                    (late if step == 2 else out).add(b.files[join(base, v["$include"])])
            else:
                for k, x in v.items():
                    if k != "$graph":
                        walk(x, base, k, 1 if k == "steps" else 0 if k == "run" else 2 if step == 1 and k == "hints" else step)
        elif isinstance(v, list):
            for x in v:
                walk(x, base, key, step)
        elif isinstance(v, str) and key in CONTENT:
            out.add(v)
    walk(b.raw if raw is None else raw, root, "", 0)
    return out, late


class LoadBase(Check):
    lines = True
    max_threads = 3

    def setup(self):
        import cwl_utils.cite_extract  # noqa: F401
        import cwl_utils.docker_extract  # noqa: F401
        import cwl_utils.parser as cp
        import schema_salad.utils as su
        self.cp, self.su = cp, su
        self.state = all_state()
        self.cache = {}
        from .boot import quiet_logging
        quiet_logging()

    # -------------------------------------------------------------- generation
    def gen_docs(self, rng, n, first=0, **opts):
        out = []
        for i in range(first, first + n):
            o = {"onever": 1, "yaml11": 0, "chain": 0, "budget": rng.choice([1, 2, 3]), "depth": rng.choice([0, 1, 1, 2]), "types": rng.choice([0, 0.3, 0.7]), "frag": rng.choice([0.2, 0.5, 0.8]),
                 "remote": rng.choice([0, 0.3]), "fragremote": rng.choice([0, 0.3]), "ns": 0.5}
            o.update(opts)
            g = docs.Gen(rng, o, first=1000 * i)
            t = g.graph() if rng.random() < 0.25 else g.tree()
            out.append({"tree": t, "where": rng.choice(["local", "local", "local", "http"])})
        return out

    def gen(self, rng, tier):
        nd = rng.choices([1, 2, 3], [2, 4, 1])[0]
        s = {"docs": self.gen_docs(rng, nd)}
        nth = rng.choices([1, 2, 3], [5, 3, 1])[0]
        s["threads"] = []
        for t in range(nth):
            ops = []
            for k in range(rng.randint(2, 4) if nth == 1 else rng.randint(1, 2)):
                op = self.gen_op(rng, s["docs"], nth)
                if rng.random() < (0.5 if nth == 1 else 0.15):
                    op["faults"] = gen_faults(rng, 10)
                    if nth > 1:
                        op["faults"] = [f for f in op["faults"] if f["t"] == "net" or f["t"] == "ki"]
                    if rng.random() < 0.6:      # and the same again without the fault
                        ops.append(op)
                        op = {k: v for k, v in op.items() if k != "faults"}
                elif nth == 1 and rng.random() < 0.15:
                    op["edit"] = 1
                ops.append(op)
            s["threads"].append(ops)
        s.update(salt=rng.randrange(3), p_split=rng.choice([0, 0.4]), chunked=rng.choice([0, 0.5]), p_short=rng.choice([0, 0.3]),
                 cfg={"p_fast": rng.choice([1.0, 0.8]), "p_line": rng.choice([0, 0.005, 0.03]) if nth > 1 else 0})
        return s

    def root(self, scen, d):
        return ("http://a.example/d%d/main.cwl" if scen["docs"][d]["where"] == "http" else "/sim/d%d/main.cwl") % d

    def builds(self, scen):
        return [docs.build(d["tree"], self.root(scen, i)) for i, d in enumerate(scen["docs"])]

    # -------------------------------------------------------------- execution
    def world(self, sim, scen):
        sim.world = None
        fs = FS(sim, scen.get("salt", 0))
        net = Net(sim)
        return fs, net

    def isolated(self, sim, mains):
        home, tmp = os.environ.get("HOME"), os.environ.get("TMPDIR")
        os.environ["HOME"], os.environ["TMPDIR"] = "/sim/home", "/sim/tmp"
        import tempfile
        tempfile.tempdir = None
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                sim.run(mains)
        finally:
            os.environ["HOME"], os.environ["TMPDIR"] = home, tmp
            tempfile.tempdir = None

    def text_of(self, fs, net, root):
        fs.active = False
        try:
            return (net.pages[root] if docs.is_remote(root) else fs.k_read(root)).decode()
        finally:
            fs.active = True

    def key(self, op):
        raise NotImplementedError

    def perform(self, scen, op, fs, net, keep):
        """-> (result as plain data, problem or None)"""
        raise NotImplementedError

    def golden(self, scen, builds, op):
        d = op["doc"]
        key = json.dumps([scen["docs"][d], d, op.get("edit", 0), self.key(op)], sort_keys=True)
        if key in self.cache:
            return self.cache[key]
        sim = core.Sim(99, None, {"p_fast": 1.0, "log": False, "max_points": 400000, "max_time": 50000.0})
        fs, net = self.world(sim, {})
        self.state.restore()
        fs.active = False
        put_files(fs, net, builds[d][0], op.get("edit", 0))
        fs.active = True
        out = {}

        def main():
            fs.lifetime(cwd="/sim/work")
            net.lifetime()
            try:
                v, p = self.perform(scen, {k: v for k, v in op.items() if k != "opts"}, fs, net, {})
                out["r"] = ("ok", v, p)
            except core.SimExit:
                raise
            except BaseException as x:
                out["r"] = ("raise", canon.message(x), None)
                del x
        self.isolated(sim, [("T0", main)])
        if len(self.cache) > 300:
            self.cache.clear()
        r = self.cache[key] = out.get("r", ("none", sim.abort_reason, None)) + (list(sim.errors),)
        return r

    def execute(self, scen, seed, replay=None, log=False):
        res = Result()
        builds = self.builds(scen)
        gold = {}
        for ops in scen["threads"]:
            for op in ops:
                g = self.golden(scen, builds, op)
                if g[3]:
                    res.errors = g[3]
                    return res
                gold[id(op)] = g
        self.judge_gold(scen, builds, gold, res)
        sim = core.Sim(seed, replay, dict(scen["cfg"], log=log, max_points=600000, max_time=50000.0))
        fs, net = self.world(sim, scen)
        net.p_split, net.chunked = scen.get("p_split", 0), scen.get("chunked", 0)
        fs.p_short_read = scen.get("p_short", 0)
        self.state.restore()
        fs.active = False
        for f, e, b in builds:
            put_files(fs, net, f)
        fs.active = True
        fs.lifetime(cwd="/sim/work")
        hist, kept = [], []
        nth = len(scen["threads"])

        def thread(t, ops):
            st = sim.threads[t]
            keep = {}
            for op in ops:
                d = op["doc"]
                if nth == 1:
                    fs.active = False
                    put_files(fs, net, builds[d][0], op.get("edit", 0))
                    fs.active = True
                    fs.hit.clear()
                    net.lifetime()
                    fs.faults = []
                if op.get("edit", 0) != keep.get("edit", 0):
                    keep.clear()
                    keep["edit"] = op.get("edit", 0)
                fl = Faults(fs, net, [self.root(scen, d)] + builds[d][2].links)
                fl.apply(st, op.get("faults", []))
                rec = {"t": t, "op": op}
                hist.append(rec)
                try:
                    rec["v"], rec["problem"] = self.perform(scen, op, fs, net, keep, kept)
                    rec["out"] = "ok"
                except core.SimExit:
                    raise
                except BaseException as x:
                    rec["out"] = "raise"
                    rec["msg"] = canon.message(x)
                    del x
                rec["faulty"] = bool(op.get("faults")) or (nth > 1 and any(o.get("faults") for os_ in scen["threads"] for o in os_))
                rec["fired"] = fs.hit + net.hit + ["%s %s" % (k, u) for u, k in fl.lasting] + (["interrupt"] if "KeyboardInterrupt" in rec.get("msg", "") else [])
                if nth == 1:
                    rec["faulty"] = bool(rec["fired"])
                st.ki_at = None
                fs.active = False
                fl.restore()
                fs.active = True
                sim.trace("op", t, d, rec["out"])
        self.isolated(sim, [("T%d" % i, lambda i=i, o=o: thread(i, o)) for i, o in enumerate(scen["threads"])])
        if sim.abort_reason not in (None, "drivers-done"):
            res.inconclusive = sim.abort_reason
        for r in hist:
            if "out" in r:
                self.judge(scen, r, gold[id(r["op"])], nth, res)
        for what, obj, before in kept:
            now = canon.dump(obj)
            if now != before:
                res.violate("changed-later", "%s was changed by what ran after it: %s" % (what, where(now, before)))
        res.take(sim)
        res.ops = len(hist)
        return res

    def judge_gold(self, scen, builds, gold, res):
        pass

    def judge(self, scen, r, g, nth, res):
        res.probes[r["out"]] = res.probes.get(r["out"], 0) + 1
        what = "thread %d of %d, %s (faults %s): " % (r["t"], nth, self.describe(r["op"]), r["fired"])
        if r["out"] == "ok":
            if r["problem"]:
                res.violate("input-changed", what + r["problem"])
            if g[0] != "ok":
                res.violate("differs", what + "succeeds here, but not in a fresh process: " + str(g[1]))
            elif r["v"] != g[1]:
                self.differs(r, g, what, res)
        elif not r["faulty"] and g[0] == "ok":
            res.violate("fails", what + "raises %s; in a fresh process it works" % r["msg"])

    def differs(self, r, g, what, res):
        res.violate("differs", what + "differs from a fresh process: " + where(r["v"], g[1]))

    def describe(self, op):
        return json.dumps({k: v for k, v in op.items() if k != "faults"}, sort_keys=True)

    # -------------------------------------------------------------- shrinking
    def shrinks(self, scen):
        for l in list_shrinks(scen["threads"]):
            if l:
                yield dict(scen, threads=l)
        for i, ops in enumerate(scen["threads"]):
            def put(x):
                return dict(scen, threads=scen["threads"][:i] + [x] + scen["threads"][i + 1:])
            for l in list_shrinks(ops):
                if l:
                    yield put(l)
            for k, op in enumerate(ops):
                for fl in list_shrinks(op.get("faults", [])):
                    yield put(ops[:k] + [dict(op, faults=fl)] + ops[k + 1:])
        for i, d in enumerate(scen["docs"]):
            for x in docs.shrink_tree(d["tree"]):
                yield dict(scen, docs=scen["docs"][:i] + [dict(d, tree=x)] + scen["docs"][i + 1:])
            if d["where"] == "http":
                yield dict(scen, docs=scen["docs"][:i] + [dict(d, where="local")] + scen["docs"][i + 1:])
        for k in ("p_split", "chunked", "p_short"):
            if scen.get(k):
                yield dict(scen, **{k: 0})


class C12(LoadBase):
    id = "C12"

    def gen_op(self, rng, ds, nth):
        i = rng.randrange(len(ds))
        d = ds[i]
        op = {"doc": i, "via": rng.choice(["uri", "uri", "string", "text", "yaml", "yaml", "again", "vstring", "vyaml"])}
        if d["where"] == "local":
            op["via"] = rng.choice([op["via"], "path", "rel", "Path"])
        g = d["tree"].get("members")
        if g:
            x = rng.random()
            if x < 0.3:
                op["all"] = True
            elif x < 0.7:
                op["id"] = rng.choice([m["id"] for m in g])
        if op["via"] in ("path", "uri", "string", "yaml") and rng.random() < 0.15:
            op["opts"] = 1
        if op["via"][0] == "v" and g:
            op["all"] = True
            op.pop("id", None)
        if op["via"] == "Path":
            op.pop("id", None)
        if op["via"] == "text":      # load_document cannot load all of a text
            op.pop("all", None)
        return op

    def key(self, op):
        # however the document is loaded, it is the same
        return [op.get("id"), op.get("all")]

    def perform(self, scen, op, fs, net, keep, kept=None):
        cp = self.cp
        root = self.root(scen, op["doc"])
        uri = root if docs.is_remote(root) else "file://" + root
        kw = {}
        if op.get("opts"):
            k = ("opts", op["doc"])
            if k not in keep:
                keep[k] = cp.LoadingOptions(fileuri=uri)
            kw["loadingOptions"] = keep[k]
        all_, id_ = bool(op.get("all")), op.get("id")
        frag = "#" + id_ if id_ else ""
        via = op["via"]
        problem = None
        if via in ("path", "rel", "uri", "Path"):
            p = {"path": root, "rel": "../" + root[5:], "uri": uri}.get(via, root) + frag
            v = cp.load_document_by_uri(Path(root) if via == "Path" else p, load_all=all_, **kw)
        else:
            t = self.text_of(fs, net, root)
            mod = getattr(cp, "cwl_" + re.search(r'cwlVersion"?: "(v1\.\d)', t).group(1).replace(".", "_"))
            if via == "string":
                v = cp.load_document_by_string(t, uri, id_=id_, load_all=all_, **kw)
            elif via == "text":
                v = cp.load_document(t, uri, id_=id_, **kw)
            elif via == "vstring":
                v = mod.load_document_by_string(t, uri)
            else:
                k = ("yaml", op["doc"])
                if via == "again" and k in keep:
                    y = keep[k]
                else:
                    y = keep[k] = self.su.yaml_no_ts().load(t)
                before = json.dumps(y)
                try:
                    if via == "vyaml":
                        v = mod.load_document_by_yaml(y, uri)
                    elif op["doc"] % 2:
                        v = cp.load_document(y, uri, id_=id_, load_all=all_, **kw)
                    else:
                        v = cp.load_document_by_yaml(y, uri, id_=id_, load_all=all_, **kw)
                finally:
                    after = json.dumps(y)
                if after != before:
                    problem = "the mapping it was given was changed: %s" % where(json.loads(after), json.loads(before))
        if via[0] == "v" and isinstance(v, list):
            for x in v:
                x.cwlVersion = t and re.search(r'cwlVersion"?: "(v1\.\d)', t).group(1)
        d = canon.dump(v)
        if isinstance(d, list):
            d = [{k: x for k, x in e.items()} for e in d]
        if kept is not None:
            kept.append((self.describe(op), v, d))
        return d, problem

    def judge_gold(self, scen, builds, gold, res):
        seen = set()
        for ops in scen["threads"]:
            for op in ops:
                g = gold[id(op)]
                k = json.dumps([op["doc"], op.get("edit", 0), self.key(op)])
                if k in seen:
                    continue
                seen.add(k)
                res.probes["golden-" + g[0]] = res.probes.get("golden-" + g[0], 0) + 1
                if g[0] != "ok":
                    res.violate("fails", "a first load in a fresh process, %s: %s" % (self.describe(op), g[1]))
                    continue
                f, e, b = builds[op["doc"]]
                root = self.root(scen, op["doc"])
                raw = None
                if scen["docs"][op["doc"]]["tree"].get("members"):
                    gr = b.raw["$graph"]
                    raw = gr if op.get("all") else [m for m in gr if m["id"] == (op.get("id") or "main")]
                must, late = content(b, root, raw)
                want = retok(sorted(must), op.get("edit", 0))
                have = canon.leaves(g[1])
                miss = [x for x in want if x not in have]
                if [x for x in retok(sorted(late), op.get("edit", 0)) if x not in have]:
                    res.violate("incomplete", "a first load, %s: what a hint of a step includes is missing" % self.describe(op), sig="step-hint:include")
                if miss:
                    res.violate("incomplete", "a first load, %s: the texts %s are missing" % (self.describe(op), docs.short(miss)))

    def differs(self, r, g, what, res):
        self.hint(r, g, what, res) or super().differs(r, g, what, res)

    def hint(self, r, g, what, res):
        raw = canon.raw_links(r["v"])
        if raw and all("/hints/" in p for p in raw) and r["faulty"]:
            a, b = cut(r["v"]), cut(g[1], r["v"])
            if a == b:
                res.violate("hint-unresolved", what + "the hint at %s holds the link instead of its content" % raw[0], sig="hint:raw-link")
                return True
        return False


def cut(d, like=None):
    """A dump without the hints in which a link was left in place."""
    like = d if like is None else like
    if isinstance(d, dict):
        return {k: cut(x, like.get(k) if isinstance(like, dict) and k in like else x) for k, x in d.items()}
    if isinstance(d, list):
        l = like if isinstance(like, list) and len(like) == len(d) else d
        return ["link" if canon.raw_links(y) and not isinstance(y, list) and "!" not in (y if isinstance(y, dict) else {"!": 1}) else cut(x, y) for x, y in zip(d, l)]
    return d


# ---------------------------------------------------------------------------------------------------- C15
def tagged(img):
    return img if ":" in img.rsplit("/", 1)[-1] else img + ":latest"


def requirements(p, cls, step=False):
    """What must be reported for a process, from the expected packed document."""
    out = []
    for q in p.get("requirements", []) + p.get("hints", []):
        if q["class"] == cls:
            d = {k: v for k, v in q.items() if k != "class"}
            if cls == "DockerRequirement" and not step:
                d["dockerPull"] = tagged(d["dockerPull"])
            out.append(d)
    if not step:
        for st in p.get("steps", []):
            out += requirements(st, cls, True)
            out += requirements(st["run"], cls)
    return out


class C15(LoadBase):
    id = "C15"

    def gen_docs(self, rng, n):
        return super().gen_docs(rng, n, budget=rng.choice([2, 4, 6]), remote=rng.choice([0, 0.3, 0.6]), frag=rng.choice([0, 0.3, 0.6]), containers=0.8, types=rng.choice([0, 0.3]), allver=1)

    def gen_op(self, rng, ds, nth):
        op = {"doc": rng.randrange(len(ds)), "what": rng.choice(["docker", "docker", "software"]), "via": rng.choice(["api", "api", "twice"])}
        if rng.random() < 0.2 and nth == 1:
            op.update(what="software", via="cli")
        return op

    def key(self, op):
        return [op["what"], op["via"]]

    def perform(self, scen, op, fs, net, keep, kept=None):
        import cwl_utils.cite_extract as ce
        import cwl_utils.docker_extract as de
        root = self.root(scen, op["doc"])
        if op["via"] == "cli":
            with Std(fs) as std:
                rc = ce.run(ce.arg_parser().parse_args([root]))
                std.finish()
                return [rc, std.node.data.decode()], None
        m = de if op["what"] == "docker" else ce
        top = self.cp.load_document_by_uri(root)
        a = [self.plain(x) for x in m.traverse(top)]
        if op["via"] == "twice":
            b = [self.plain(x) for x in m.traverse(top)]
            if a != b:
                return a, "a second extraction from the loaded document gives %s" % where(b, a)
        return a, None

    def plain(self, q):
        d = canon.dump(q)
        d.pop("!")
        d.pop("namespaces", None)
        d.pop("class_", None)
        for p in d.get("packages", []):
            p.pop("!")
        return d

    def judge_gold(self, scen, builds, gold, res):
        seen = set()
        for ops in scen["threads"]:
            for op in ops:
                g = gold[id(op)]
                k = json.dumps([op["doc"], op.get("edit", 0), self.key(op)])
                if k in seen:
                    continue
                seen.add(k)
                res.probes["golden-" + g[0]] = res.probes.get("golden-" + g[0], 0) + 1
                if g[0] != "ok":
                    res.violate("fails", "a first extraction in a fresh process, %s: %s" % (self.describe(op), g[1]))
                    continue
                if g[2]:
                    res.violate("differs", "a first extraction, %s: %s" % (self.describe(op), g[2]))
                want = retok(requirements(builds[op["doc"]][1], "DockerRequirement" if op["what"] == "docker" else "SoftwareRequirement"), op.get("edit", 0))
                res.probes["reported"] = res.probes.get("reported", 0) + len(want)
                if op["via"] == "cli":
                    n = sum(len(q["packages"]) for q in want)
                    lines = g[1][1].splitlines()
                    for q in want:
                        for p in q["packages"]:
                            l = "Package: {}, version: {}, specs: {}".format(p["package"], p["version"], p.get("specs"))
                            if l not in lines:
                                res.violate("incomplete", "a first extraction, %s: no line %r" % (self.describe(op), l))
                    if len(lines) != n:
                        res.violate("incomplete", "a first extraction, %s: %d lines for %d packages" % (self.describe(op), len(lines), n))
                    continue
                a, b = sorted(json.dumps(x, sort_keys=True) for x in want), sorted(json.dumps(x, sort_keys=True) for x in g[1])
                if a != b:
                    res.violate("incomplete", "a first extraction, %s: missing %s, unexpected %s" % (self.describe(op), docs.short([x for x in a if x not in b]), docs.short([x for x in b if x not in a])))

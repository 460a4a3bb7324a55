"""Generated CWL documents: trees of local and remote files with links of every kind, and what packing them must give.

A tree is a JSON value (so that it can be shrunk); build() turns it into files (url or path -> text) and the expected
packed document.  The expected document is computed from the tree, never by the code under test."""
import copy
import json
import posixpath
import urllib.parse

BUILTIN = ["string", "int", "File", "float", "boolean", "Directory", "long", "double"]
LOCS_LOCAL = ["same", "sub", "up", "http", "file"]
LOCS_REMOTE = ["same", "sub", "up", "http2"]
TYPENAMES = ["rec", "pair", "opt_rec", "rec_2", "rec_3", "pair_4", "entry"]
NAME = "\u0001"          # marks the name of an inlined user-defined type in an expected document


class Plain(int):
    """A number whose plain spelling means something else under another YAML version."""
    def __new__(cls, value, text):
        x = int.__new__(cls, value)
        x.text = text
        return x

    def __deepcopy__(self, memo):
        return self


def is_remote(u):
    return u.startswith("http:")


def dirname(u):
    return u.rsplit("/", 1)[0]


class Builder:
    def __init__(self, tree, root):
        self.files = {}
        self.tree = tree
        self.root = root
        self.shared = {}         # id -> (url, node)
        self.style = tree.get("style", 0)
        self.intype = 0
        self.lazy = set()        # files only needed if a type is used
        self.links = []          # every linked url in the order it is met
        self.vals = {}           # text of a file -> what it was written from
        self.graph = {}          # id -> expected process, for the members of a $graph

    # -- placing files
    def place(self, loc, at, fname):
        d = dirname(at)
        if loc == "same":
            return d + "/" + fname
        if loc == "sub":
            return d + "/sub/" + fname
        if loc == "up":
            base = posixpath.dirname(urllib.parse.urlparse(d).path)
            if is_remote(at):
                p = urllib.parse.urlparse(d)
                return "http://%s%s/%s" % (p.netloc, base if base != "/" else "", fname)
            return (base if base.startswith("/sim/") else "/sim/lib") + "/" + fname
        if loc == "http":
            return "http://a.example/lib/v1/" + fname
        if loc == "http2":
            return "http://b.example/defs/" + fname
        if loc == "file":
            return "/sim/lib/abs/" + fname
        raise ValueError(loc)

    def link(self, at, to, loc):
        if is_remote(to):
            a, b = urllib.parse.urlparse(at), urllib.parse.urlparse(to)
            if not is_remote(at) or a.netloc != b.netloc or loc in ("http", "http2"):
                return to
            return posixpath.relpath(b.path, posixpath.dirname(a.path))
        if loc == "file":
            return "file://" + to if self.tree.get("fileuri", True) else to
        return posixpath.relpath(to, posixpath.dirname(at))

    def fixloc(self, loc, at):
        if is_remote(at):
            return loc if loc in LOCS_REMOTE else "same"
        return loc if loc in LOCS_LOCAL else "http"

    def new_file(self, loc, at, fname):
        loc = self.fixloc(loc, at)
        url = self.place(loc, at, fname)
        self.links.append(url)
        if self.intype:
            self.lazy.add(url)
        return url, self.link(at, url, loc)

    # -- text and fragments
    def text(self, frag, at):
        """A string field: literal, or an $include."""
        t = frag["text"]
        if not frag.get("loc"):
            return t, t
        url, l = self.new_file(frag["loc"], at, "t%d.txt" % frag["n"])
        self.files[url] = t
        return {"$include": l}, t

    def imported(self, frag, at, raw_of, ext="yml"):
        """A fragment: literal, or an $import of a file (or of a file that imports another one)."""
        if not frag.get("loc"):
            return raw_of(at)
        url, l = self.new_file(frag["loc"], at, "f%d.%s" % (frag["n"], ext))
        if frag.get("chain"):
            url2, l2 = self.new_file(frag["chain"], url, "c%d.%s" % (frag["n"], ext))
            raw, exp = raw_of(url2)
            self.files[url2] = self.dump(raw)
            self.files[url] = self.dump({"$import": l2})
        else:
            raw, exp = raw_of(url)
            self.files[url] = self.dump(raw)
        return {"$import": l}, exp

    def near(self, frag, types, at):
        """A local file's types cannot be named from a remote one."""
        if has_ref(types) and not is_remote(at) and frag.get("loc") in ("http", "http2"):
            return dict(frag, loc="sub")
        return frag

    # -- types
    def type(self, t, at, env):
        """-> (raw, expected)"""
        if isinstance(t, str):
            return t, t
        k, v = next(iter(t.items()))
        if k in ("opt", "arr"):
            raw, exp = self.type(v, at, env)
            if isinstance(raw, str) and not t.get("long") and not raw.endswith("?"):
                raw = raw + ("?" if k == "opt" else "[]")
            else:
                raw = ["null", raw] if k == "opt" else {"type": "array", "items": raw}
            return raw, (["null", exp] if k == "opt" else {"type": "array", "items": exp})
        if k == "union":
            rs = [self.type(x, at, env) for x in v]
            return [r for r, e in rs], [e for r, e in rs]
        if k == "enum":
            d = {"type": "enum", "symbols": list(v)}
            return d, copy.deepcopy(d)
        if k == "rec":
            return self.record(t, at, env)
        if k == "imp":
            raw, exp = self.imported(v, at, lambda u: self.type(v["t"], u, env))
            return raw, exp
        if k == "ref":
            g, d = v
            return self.tref(g, d, at, env)
        raise ValueError(k)

    def record(self, t, at, env, name=None):
        fields = t["rec"]
        rr, ee = [], []
        for f in fields:
            raw, exp = self.type(f["t"], at, env)
            rf, ef = {"name": f["name"], "type": raw}, {"name": f["name"], "type": exp}
            if f.get("doc"):
                rf["doc"], ef["doc"] = self.text(f["doc"], at)
            rr.append(rf)
            ee.append(ef)
        raw = {"type": "record", "fields": rr}
        if t.get("map"):
            raw["fields"] = {}
            for rf in rr:
                n = rf.pop("name")
                raw["fields"][n] = rf if len(rf) > 1 or isinstance(rf["type"], dict) else rf["type"]
        return raw, {"type": "record", "fields": ee}

    def tref(self, g, d, at, env):
        """A reference to a user-defined type in scope."""
        grp = env[g]
        de = grp["defs"][d]
        if grp["url"] == at:
            raw = "#" + de["name"]
        else:
            raw = self.link(at, grp["url"], grp["loc"]) + "#" + de["name"]
        exp = copy.deepcopy(de["exp"])
        return raw, exp

    def groups(self, node, at, env):
        """SchemaDefRequirement of a process -> (requirement entry or None); extends env."""
        gs = node.get("types") or []
        if not gs:
            return None, env
        env = list(env)
        ents = []
        whole = node.get("reqimport")
        if whole:
            url, l = self.new_file(whole, at, "reqs%d.yml" % node["n"])
            base = url
        else:
            base = at
        for gi, g in enumerate(gs):
            form = "inline" if whole else g["form"]
            if form == "inline":
                url = base
                loc = whole if whole else "same"
            else:
                gl = self.near(g, g["defs"], at)["loc"]
                loc = self.fixloc(gl, at)
                url, l2 = self.new_file(gl, at, "types%d_%d.yml" % (node["n"], gi))
            grp = {"url": url, "loc": self.fixloc(loc, at), "defs": []}
            env.append(grp)
            raws = []
            for de in g["defs"]:
                raw, exp = self.typedef(de, url, env)
                raws.append(raw)
                grp["defs"].append({"name": de["name"], "exp": exp})
            if form == "inline":
                ents.extend(raws)
            else:
                self.files[url] = self.dump(raws[0] if form == "single" and len(raws) == 1 else raws)
                ents.append({"$import": l2})
        req = {"class": "SchemaDefRequirement", "types": ents}
        if whole:
            self.files[base] = self.dump(req)
            return {"$import": l}, env
        return req, env

    def typedef(self, de, url, env):
        self.intype += 1
        try:
            return self.typedef1(de, url, env)
        finally:
            self.intype -= 1

    def typedef1(self, de, url, env):
        t = de["t"]
        if "enum" in t:
            d = {"type": "enum", "symbols": list(t["enum"])}
            return dict(d, name=de["name"]), dict(d, name=NAME + de["name"])
        if "array" in t:
            raw, exp = self.type(t["array"], url, env)
            return {"type": "array", "items": raw, "name": de["name"]}, {"type": "array", "items": exp, "name": NAME + de["name"]}
        raw, exp = self.record(t, url, env)
        raw["name"], exp["name"] = de["name"], NAME + de["name"]
        return raw, exp

    # -- ports
    def ports(self, lst, form, at, env, extra=None):
        rr, ee = [], []
        for p in lst:
            def one(u, p=p):
                raw, exp = self.type(p["t"], u, env)
                r, e = {"id": p["id"], "type": raw}, {"id": p["id"], "type": exp}
                if p.get("doc"):
                    r["doc"], e["doc"] = self.text(p["doc"], u)
                if p.get("src"):
                    r["outputSource"], e["outputSource"] = ("#" if p.get("hash") else "") + p["src"], p["src"]
                if p.get("glob"):
                    r["outputBinding"] = {"glob": p["glob"]}
                    e["outputBinding"] = {"glob": p["glob"]}
                if p.get("bind"):
                    r["inputBinding"] = {"position": p["bind"]}
                    e["inputBinding"] = {"position": p["bind"]}
                if p.get("default") is not None:
                    r["default"] = p["default"]
                    e["default"] = p["default"]
                return r, e
            if p.get("imp") and form == "list":
                r, e = self.imported(self.near(p["imp"], p["t"], at), at, one)
            else:
                r, e = one(at)
            rr.append(r)
            ee.append(e)
        if form == "map" and rr:
            m = {}
            for r in rr:
                i = r.pop("id")
                m[i] = r if len(r) > 1 or isinstance(r["type"], dict) else r["type"]
            return m, ee
        return rr, ee

    # -- processes
    def process(self, node, at, env, parent_ver, need_ver=False):
        raw, exp = {}, {}
        if node.get("ver") and (need_ver or node.get("showver")):
            raw["cwlVersion"] = exp["cwlVersion"] = node["ver"]
        ver = raw.get("cwlVersion", parent_ver)
        cls = {"tool": "CommandLineTool", "et": "ExpressionTool", "wf": "Workflow"}[node["k"]]
        raw["class"] = exp["class"] = cls
        if not node.get("noid"):
            raw["id"] = exp["id"] = node["id"]
        raw["label"] = exp["label"] = "process tok%d" % node["n"]
        if node.get("doc"):
            raw["doc"], exp["doc"] = self.text(node["doc"], at)
        sreq, env = self.groups(node, at, env)
        rl, el = [], []
        for q in node.get("reqs", []):
            r, e = self.req(q, at)
            rl.append(r)
            el.append(e)
        if sreq is not None:
            rl.insert(node.get("spos", 0) % (len(rl) + 1), sreq)
        as_map = node.get("reqmap") and all("class" in r for r in rl)
        if rl:
            raw["requirements"] = {r["class"]: {k: v for k, v in r.items() if k != "class"} for r in rl} if as_map else rl
        exp["requirements"] = el
        if node.get("hints"):
            hs = [self.req(q, at) for q in node["hints"]]
            raw["hints"], exp["hints"] = [r for r, e in hs], [e for r, e in hs]
        inp = node.get("inputs", [])
        if node.get("inimp"):
            raw["inputs"], exp["inputs"] = self.imported(self.near(node["inimp"], inp, at), at, lambda u: self.ports(inp, "list", u, env))
        else:
            raw["inputs"], exp["inputs"] = self.ports(inp, node.get("inform", "list"), at, env)
        raw["outputs"], exp["outputs"] = self.ports(node.get("outputs", []), node.get("outform", "list"), at, env)
        if node["k"] == "tool":
            raw["baseCommand"] = exp["baseCommand"] = ["echo", "t%d" % node["n"]]
            if node.get("args"):
                a = [self.arg(x, at) for x in node["args"]]
                raw["arguments"], exp["arguments"] = [r for r, e in a], [e for r, e in a]
        elif node["k"] == "et":
            raw["expression"] = exp["expression"] = "${ return {}; }"
        else:
            self.workflow(node, raw, exp, at, env, ver)
        return raw, exp

    def arg(self, a, at):
        if isinstance(a, str):
            return a, a
        return self.imported(a, at, lambda u: ({"valueFrom": a["v"], "prefix": a["p"]}, {"valueFrom": a["v"], "prefix": a["p"]}))

    def req(self, q, at):
        def body(u):
            c = q["class"]
            if c == "InlineJavascriptRequirement":
                ls = [self.text(x, u) for x in q["lib"]]
                return {"class": c, "expressionLib": [r for r, e in ls]}, {"class": c, "expressionLib": [e for r, e in ls]}
            if c == "DockerRequirement":
                r = {"class": c, "dockerPull": q["img"]}
                e = dict(r)
                if q.get("file"):
                    r["dockerFile"], e["dockerFile"] = self.text(q["file"], u)
                    r["dockerImageId"] = e["dockerImageId"] = "img%d" % q["n"]
                return r, e
            if c == "SoftwareRequirement":
                r = {"class": c, "packages": [dict({"package": p, "version": ["%d.0" % q["n"]]}, **({"specs": ["https://identifiers.org/rrid/%s" % p]} if q.get("specs") else {})) for p in q["pkgs"]]}
                return r, copy.deepcopy(r)
            if c == "EnvVarRequirement":
                r = {"class": c, "envDef": [{"envName": "V%d" % q["n"], "envValue": q["v"]}]}
                return r, copy.deepcopy(r)
            if c == "ResourceRequirement":
                n = q["n"] % 7 + 8
                o = "0%d" % (q["n"] % 7 + 10)
                v = Plain(int(o, 8) if self.tree.get("yaml11") else int(o), o) if q.get("amb") else n
                return {"class": c, "coresMin": v}, {"class": c, "coresMin": int(v)}
            r = {"class": c}
            return r, dict(r)
        return self.imported(q, at, body)

    def child(self, st, at, env, ver):
        """A step's process -> (raw run, expected run)"""
        c = st["run"]
        how = c["how"]
        if how == "gref":
            return "#" + c["of"], copy.deepcopy(self.graph[c["of"]])
        if how == "reuse":
            sh = self.shared.get(c["of"])
            if sh is None or is_remote(at) and not is_remote(sh[0]):
                c = st["alt"]
                how = "string"
            else:
                url, node = sh
                self.links.append(url)
                _, exp = self.expect_shared(c["of"], ver)
                return self.link(at, url, self.fixloc("http" if is_remote(url) else "same", at)), exp
        if how == "inline":
            return self.process(c["p"], at, env if c.get("scope") else env, ver)
        url, l = self.new_file(c["loc"], at, "p%d.cwl" % c["p"]["n"])
        raw, exp = self.process(c["p"], url, [], ver)
        self.files[url] = self.dump(raw)
        if how == "string":
            self.shared[c["p"]["n"]] = (url, c["p"])
            return l, exp
        return {"$import": l}, exp

    def expect_shared(self, of, ver):
        url, node = self.shared[of]
        b = Builder(self.tree, self.root)
        b.shared = {k: v for k, v in self.shared.items() if k != of}
        raw, exp = b.process(node, url, [], ver)
        self.links.extend(b.links)
        return raw, exp

    def workflow(self, node, raw, exp, at, env, ver):
        rs, es = [], []
        sub = False
        for st in node.get("steps", []):
            def mk(u, st=st):
                r = {"id": st["id"]}
                e = {"id": st["id"]}
                if st.get("label"):
                    r["label"] = e["label"] = st["label"]
                ins_r = [{"id": i["id"], "source": ("#" if i.get("hash") else "") + i["src"]} for i in st["in"]]
                e["in"] = [{"id": i["id"], "source": i["src"]} for i in st["in"]]
                for a, b, i in zip(ins_r, e["in"], st["in"]):
                    if i.get("vf"):
                        a["valueFrom"] = b["valueFrom"] = i["vf"]
                r["in"] = {i["id"]: i["source"] for i in ins_r} if st.get("inmap") and not any(i.get("vf") for i in st["in"]) else ins_r
                r["out"] = list(st["out"])
                e["out"] = list(st["out"])
                for kk in ("reqs", "hints"):
                    if st.get(kk):
                        qs = [self.req(q, u) for q in st[kk]]
                        kn = "requirements" if kk == "reqs" else kk
                        r[kn], e[kn] = [x for x, y in qs], [y for x, y in qs]
                r["run"], e["run"] = self.child(st, u, env, exp.get("cwlVersion", ver))
                return r, e
            r, e = mk(at)
            if "cwlVersion" in e["run"]:
                if vkey(e["run"]["cwlVersion"]) > vkey(exp.get("cwlVersion", ver)):
                    exp["cwlVersion"] = e["run"]["cwlVersion"]
            sub = sub or e["run"]["class"] == "Workflow"
            rs.append(r)
            es.append(e)
        raw["steps"] = rs
        if node.get("stepmap"):
            raw["steps"] = {}
            for r in rs:
                raw["steps"][r.pop("id")] = r
        exp["steps"] = es
        if sub and not any(q.get("class") == "SubworkflowFeatureRequirement" for q in exp["requirements"]):
            exp["requirements"].append({"class": "SubworkflowFeatureRequirement"})

    # -- text of a file
    def dump(self, v):
        t = self.dump1(v)
        self.vals[t] = v
        return t

    def dump1(self, v):
        if self.tree.get("yaml11"):
            return "%YAML 1.1\n---\n" + "\n".join(block(v, 0)) + "\n"
        if self.style == 1:
            return json.dumps(v) + "\n"
        if self.style == 2:
            return json.dumps(v, indent=2) + "\n"
        return "\n".join(block(v, 0)) + "\n"


def vkey(v):
    return [int(x) for x in v.strip("v").split(".")]


def scalar(v):
    if isinstance(v, Plain):
        return v.text
    return json.dumps(v)


def block(v, ind):
    sp = " " * ind
    if isinstance(v, dict) and v:
        out = []
        for k, x in v.items():
            kk = k if k.replace("_", "").isalnum() and not k.isdigit() or k.startswith("$") else json.dumps(k)
            if isinstance(x, (dict, list)) and x:
                out.append(sp + kk + ":")
                out.extend(block(x, ind + 2))
            else:
                out.append(sp + kk + ": " + scalar(x))
        return out
    if isinstance(v, list) and v:
        out = []
        for x in v:
            if isinstance(x, (dict, list)) and x:
                b = block(x, ind + 2)
                b[0] = sp + "- " + b[0][ind + 2:]
                out.extend(b)
            else:
                out.append(sp + "- " + scalar(x))
        return out
    return [sp + scalar(v)]


def build(tree, root="/sim/work/main.cwl"):
    """-> (files: path/url -> text, expected packed document, builder)"""
    b = Builder(tree, root)
    if tree.get("members"):
        return build_graph(tree, root, b)
    raw, exp = b.process(tree["root"], root, [], tree["root"]["ver"], need_ver=True)
    if tree.get("ns"):
        extend(tree, raw)
    b.files[root] = b.dump(raw)
    b.raw = raw
    return b.files, exp, b


def extend(tree, raw):
    """Extension fields under a namespace of the document's own."""
    raw["$namespaces"] = {"ex": tree["ns"]}
    raw["ex:note"] = "extension tok%d" % tree["root"]["n"]
    raw["hints"] = raw.get("hints", []) + [{"class": "ex:Hint", "value": "hint tok%d" % tree["root"]["n"]}]


def build_graph(tree, root, b):
    """A $graph document: the members first, then main, whose steps may run members."""
    out = []
    for node in tree["members"] + [tree["root"]]:
        raw, exp = b.process(node, root, [], tree["root"]["ver"], need_ver=False)
        raw.pop("cwlVersion", None)
        exp.pop("cwlVersion", None)
        b.graph[node["id"]] = exp
        out.append(raw)
    doc = {"cwlVersion": tree["root"]["ver"], "$graph": out}
    if tree.get("ns"):
        doc["$namespaces"] = {"ex": tree["ns"]}
        out[-1]["ex:note"] = "extension tok%d" % tree["root"]["n"]
    b.files[root] = b.dump(doc)
    b.raw = doc
    return b.files, b.graph[tree["root"]["id"]], b


# ---------------------------------------------------------------- comparison
def compare(got, want, names, path=""):
    """None if got is the expected document; otherwise where it differs.  Names of inlined types are collected."""
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return "%s: %r instead of an object with %s" % (path, short(got), sorted(want))
        for k in want:
            if k not in got:
                return "%s: %r is missing" % (path, k)
        for k in got:
            if k not in want:
                return "%s: unexpected %r: %s" % (path, k, short(got[k]))
        for k, w in want.items():
            if isinstance(w, str) and w.startswith(NAME):
                g = got[k]
                b = w[1:]
                if not isinstance(g, str) or not (g == b or g.startswith(b + "_") and g[len(b) + 1:].isdigit()):
                    return "%s/%s: type name %r instead of %r" % (path, k, g, b)
                names.append(g)
                continue
            r = compare(got[k], w, names, path + "/" + k)
            if r:
                return r
        return None
    if isinstance(want, list):
        if not isinstance(got, list):
            return "%s: %s instead of a list" % (path, short(got))
        if len(got) != len(want):
            return "%s: %d instead of %d entries" % (path, len(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            r = compare(g, w, names, "%s/%d" % (path, i))
            if r:
                return r
        return None
    if type(got) is not type(want) and not (isinstance(got, str) and isinstance(want, str)) or got != want:
        return "%s: %s instead of %s" % (path, short(got), short(want))
    return None


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + "..."


# ---------------------------------------------------------------- generation
class Gen:
    def __init__(self, rng, opts=None, first=0):
        self.r = rng
        self.n = first
        o = {"remote": 0.4, "depth": 2, "types": 0.5, "frag": 0.4, "chain": 0.15, "budget": 6, "vers": ["v1.0", "v1.1", "v1.2"], "import_run": 0.15, "fragremote": 0.3}
        o.update(opts or {})
        self.o = o
        self.left = o["budget"]
        self.linked = []

    def uid(self):
        self.n += 1
        return self.n

    def loc(self, remote_p=None):
        r = self.r
        if r.random() < (self.o["fragremote"] if remote_p is None else remote_p):
            return r.choice(["http", "http2", "http"])
        return r.choice(["same", "same", "sub", "sub", "up", "file"] if self.o.get("fileloc", True) else ["same", "same", "sub", "sub", "up"])

    def frag(self, p=None):
        d = {"n": self.uid()}
        if self.r.random() < (self.o["frag"] if p is None else p):
            d["loc"] = self.loc()
            if self.r.random() < self.o["chain"]:
                d["chain"] = self.loc()
        return d

    def text(self, kind="doc"):
        n = self.uid()
        t = {"doc": "text tok%d. more\nsecond line tok%d\n" % (n, n), "js": "var v%d = 'tok%d'; // \u00e9\n" % (n, n), "docker": "FROM debian:tok%d\nRUN true\n" % n}[kind]
        d = {"n": n, "text": t}
        if self.r.random() < self.o["frag"]:
            d["loc"] = self.loc()
        return d

    def typ(self, depth, env, need=False):
        r = self.r
        refs = [(g, d) for g, e in enumerate(env) for d in range(e)]
        if refs and (need or r.random() < 0.6):
            t = {"ref": list(r.choice(refs))}
        elif depth > 0 and r.random() < 0.3:
            k = r.choice(["rec", "enum", "union", "imp"])
            if k == "rec":
                t = {"rec": self.fields(depth - 1, env), "map": r.random() < 0.4}
            elif k == "enum":
                t = {"enum": ["a%d" % self.uid(), "b"]}
            elif k == "union":
                t = {"union": ["null", r.choice(BUILTIN)]}
            else:
                t = {"imp": dict(self.frag(1.0), t={"rec": self.fields(depth - 1, []), "map": False})}
                t["imp"].pop("chain", None)
        else:
            return r.choice(BUILTIN) if r.random() < 0.8 else {"arr": r.choice(BUILTIN)}
        if "imp" not in t and "union" not in t:
            if r.random() < 0.2:
                t = {"arr": t}
            if r.random() < 0.2:
                t = {"opt": t}
        return t

    def fields(self, depth, env):
        fs = []
        for i in range(self.r.randint(1, 3)):
            f = {"name": "f%d" % i, "t": self.typ(depth, env)}
            if self.r.random() < 0.2:
                f["doc"] = self.text()
            fs.append(f)
        return fs

    def groups(self, scope, inline):
        r = self.r
        gs, env = [], [0] * len(scope)
        for _ in range(r.choices([1, 2], [3, 1])[0]):
            defs = []
            form = r.choice(["inline", "list", "single", "list"])
            names = r.sample(TYPENAMES, r.choices([1, 2, 3], [3, 2, 1])[0])
            env.append(0)
            for nm in names:
                if inline:       # names of types in one file are distinct
                    nm = "%sn%d" % (nm, self.uid())
                k = r.random()
                if self.o.get("rectypes"):
                    k = 1
                if k < 0.15:
                    t = {"enum": ["x%d" % self.uid(), "y"]}
                elif k < 0.3 and not (self.o.get("onever") and self.o["vers"] == ["v1.0"]):   # CWL v1.0 has no named array types
                    t = {"array": self.typ(1, env)}
                else:
                    t = {"rec": self.fields(1, env), "map": r.random() < 0.3}
                defs.append({"name": nm, "t": t})
                env[-1] += 1
            gs.append({"form": form, "loc": self.loc(), "defs": defs})
        # one SchemaDefRequirement: names in its inline parts are distinct
        seen = set()
        for g in gs:
            if g["form"] == "inline" or True:
                for de in g["defs"]:
                    while de["name"] in seen:
                        de["name"] += "x"
                    seen.add(de["name"])
        return gs, env[len(scope):]

    def req(self, kinds=None):
        r = self.r
        c = r.choice(kinds or ["InlineJavascriptRequirement", "DockerRequirement", "SoftwareRequirement", "EnvVarRequirement", "ResourceRequirement"])
        q = dict(self.frag(), **{"class": c})
        if c == "InlineJavascriptRequirement":
            q["lib"] = [self.text("js") for _ in range(r.randint(1, 2))]
        elif c == "DockerRequirement":
            q["img"] = r.choice(["ubuntu", "debian:%d" % q["n"], "quay.io/org/tool%d:1" % q["n"], "img%d" % q["n"]])
            if self.o.get("containers"):
                q["img"] = r.choice([q["img"], "localhost:5000/img%d" % q["n"], "reg.example:443/a/b%d:2" % q["n"], "org/img%d@sha256:00%d" % (q["n"], q["n"])])
            if r.random() < 0.3:
                q["file"] = self.text("docker")
        elif c == "SoftwareRequirement":
            q["pkgs"] = ["pkg%d" % self.uid() for _ in range(r.randint(1, 2))]
            q["specs"] = r.random() < 0.5
        elif c == "ResourceRequirement":
            q["amb"] = r.random() < 0.4
        elif c == "EnvVarRequirement":
            q["v"] = "value%d" % q["n"]
        return q

    def ports(self, n, env, pfx, imp=True):
        r = self.r
        ps = []
        used = False
        for i in range(n):
            need = bool(env) and not used and i == n - 1
            p = {"id": "%s%d" % (pfx, i), "t": self.typ(2, env, need)}
            used = used or has_ref(p["t"])
            if r.random() < 0.2:
                p["doc"] = self.text()
            if imp and r.random() < 0.5 * self.o["frag"]:
                p["imp"] = self.frag(1.0)
                p["imp"].pop("chain", None)
            ps.append(p)
        return ps

    def process(self, kind, depth, scope=(), inline=False):
        r = self.r
        self.left -= 1
        node = {"k": kind, "n": self.uid()}
        node["id"] = "%s%d" % (kind, node["n"])
        node["ver"] = r.choice(self.o["vers"])
        if self.o.get("noids"):
            node["noid"] = True
        node["showver"] = r.random() < 0.5 or bool(self.o.get("allver") and not inline)
        if r.random() < 0.4:
            node["doc"] = self.text()
        env = list(scope)
        if r.random() < self.o["types"]:
            node["types"], own = self.groups(env, inline)
            env = env + own
            if r.random() < 0.2:
                node["reqimport"] = self.loc()
            node["spos"] = r.randrange(3)
        kinds = ["InlineJavascriptRequirement", "DockerRequirement", "SoftwareRequirement", "EnvVarRequirement", "ResourceRequirement"]
        r.shuffle(kinds)
        nreq = r.choices([0, 1, 2], [3, 3, 1])[0]
        if r.random() < self.o.get("containers", 0):
            kinds.sort(key=lambda k: k not in ("DockerRequirement", "SoftwareRequirement"))
        node["reqs"] = [self.req([k]) for k in kinds[:nreq]]
        for q in node["reqs"]:
            q.pop("chain", None)
        node["reqmap"] = r.random() < 0.3
        node["hints"] = [self.req([k]) for k in kinds[nreq:nreq + r.choices([0, 1, 2], [3, 3, 1])[0]] if k != "InlineJavascriptRequirement"]
        node["inputs"] = self.ports(r.randint(1, 3), env, "i")
        if r.random() < 0.15 * (self.o["frag"] > 0):
            node["inimp"] = self.frag(1.0)
            node["inimp"].pop("chain", None)
        node["inform"] = r.choice(["list", "map"])
        node["outform"] = r.choice(["list", "map"])
        if kind == "tool":
            if r.random() < 0.4:
                node["args"] = [dict(self.frag(0.7), v="arg%d" % self.uid(), p="-x") if r.random() < 0.7 else "plain%d" % self.uid() for _ in range(r.randint(1, 2))]
            if self.o.get("exprs") and r.random() < self.o["exprs"]:
                node.setdefault("args", []).append(r.choice(["$(%d + 1)", "pre $(inputs.i0) %d", "${ return 'tok%d'; }"]) % self.uid())
                self.needjs(node)
            node["outputs"] = [{"id": "o0", "t": "File", "glob": "out%d" % node["n"]}]
            if r.random() < 0.3:
                node["outputs"].append({"id": "o1", "t": {"opt": "File"}, "glob": "x*"})
        elif kind == "et":
            node["reqs"] = [q for q in node["reqs"] if q["class"] != "InlineJavascriptRequirement"] + [dict({k: v for k, v in self.frag().items() if k != "chain"}, lib=[self.text("js")], **{"class": "InlineJavascriptRequirement"})]
            node["outputs"] = [{"id": "o0", "t": "Any"}]
        else:
            steps = []
            n = r.choices([1, 2, 3, 0], [4, 4, 2, 0.3])[0]
            for i in range(n):
                if self.left <= 0 and i:
                    break
                steps.append(self.step(i, depth, env))
            if any(i.get("vf") for st in steps for i in st["in"]):
                node["reqs"].append({"class": "StepInputExpressionRequirement", "n": self.uid()})
                self.needjs(node)
            node["steps"] = steps
            node["stepmap"] = r.random() < 0.4
            node["outputs"] = [{"id": "o0", "t": "Any", "src": "s0/o0", "hash": r.random() < 0.3}] if steps else []
        return node

    def needjs(self, node):
        node["hints"] = [q for q in node["hints"] if q["class"] != "InlineJavascriptRequirement"]
        if not any(q["class"] == "InlineJavascriptRequirement" for q in node["reqs"]):
            node["reqs"].append({"class": "InlineJavascriptRequirement", "n": self.uid(), "lib": [self.text("js")]})

    def step(self, i, depth, env):
        r = self.r
        st = {"id": "s%d" % i, "in": [{"id": "i0", "src": "i0", "hash": r.random() < 0.3}], "out": ["o0"], "inmap": r.random() < 0.4}
        if self.o.get("exprs") and r.random() < self.o["exprs"]:
            st["in"][0]["vf"] = "$(%d * 2)" % self.uid()
        if r.random() < 0.2:
            st["hints"] = [self.req(["DockerRequirement", "SoftwareRequirement", "ResourceRequirement"])]
            if self.o.get("containers") and st["hints"][0].get("loc") and st["hints"][0].get("file"):
                st["hints"][0]["file"].pop("loc", None)      # an include inside an imported hint of a step is not followed
        if r.random() < 0.2:
            st["reqs"] = [self.req(["DockerRequirement", "SoftwareRequirement", "EnvVarRequirement"])]
        kind = r.choices(["tool", "et", "wf"], [6, 1, 3 if depth > 0 else 0])[0]
        x = r.random()
        how = "inline" if x < 0.3 else "import" if x < 0.3 + self.o["import_run"] else "string"
        if how != "inline" and self.linked and r.random() < 0.2:
            st["run"] = {"how": "reuse", "of": r.choice(self.linked)}
            st["alt"] = {"how": "string", "loc": self.loc(self.o["remote"]), "p": self.process("tool", 0)}
            return st
        scope = env if how == "inline" and r.random() < 0.5 and self.o.get("scope", True) else ()
        c = {"how": how, "p": self.process(kind, depth - 1, scope, how == "inline")}
        if how == "inline":
            # group indexes of an inline child count from the parent's groups
            c["scope"] = bool(scope)
            if not scope:
                shift(c["p"], len(env))
        else:
            c["loc"] = self.loc(self.o["remote"])
            if how == "string":
                self.linked.append(c["p"]["n"])
        st["run"] = c
        return st

    def tree(self, kind=None):
        r = self.r
        if self.o.get("onever"):
            self.o["vers"] = [r.choice(self.o["vers"])]
        k = kind or r.choices(["wf", "tool", "et"], [8, 2, 0.5])[0]
        root = self.process(k, self.o["depth"])
        t = {"root": root, "style": r.choice([0, 0, 1, 2]), "yaml11": r.random() < self.o.get("yaml11", 0)}
        if self.o.get("ns") and r.random() < self.o["ns"]:
            t["ns"] = "http://ns%d.example/x#" % self.uid()
        return t

    def graph(self):
        """A $graph document."""
        r = self.r
        self.o["onever"] = 1
        self.o["vers"] = [r.choice(self.o["vers"])]
        self.left = 2
        members = [self.process(r.choice(["tool", "tool", "et", "wf"]), 0) for _ in range(r.randint(1, 3))]
        self.left = 3
        main = self.process("wf", 1)
        main["id"] = "main"
        for st in main.get("steps", []):
            if r.random() < 0.6:
                st["run"] = {"how": "gref", "of": r.choice(members)["id"]}
        t = {"root": main, "members": members, "style": r.choice([0, 1, 2]), "yaml11": False}
        if self.o.get("ns") and r.random() < self.o["ns"]:
            t["ns"] = "http://ns%d.example/x#" % self.uid()
        return t


def has_ref(t):
    if isinstance(t, dict):
        return "ref" in t or any(has_ref(v) for v in t.values())
    return isinstance(t, list) and any(has_ref(v) for v in t)


def shift(node, k):
    """Move the group indexes of all references in an inline process by k."""
    if k == 0:
        return

    def walk(v):
        if isinstance(v, dict):
            if "ref" in v and isinstance(v["ref"], list):
                v["ref"] = [v["ref"][0] + k, v["ref"][1]]
                return
            for kk, x in v.items():
                if kk == "run" and isinstance(x, dict) and x.get("how") != "inline":
                    continue
                if kk == "alt":
                    continue
                walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)
    walk(node)


# ---------------------------------------------------------------- shrinking of trees
def nodes(tree):
    """Paths to every process node."""
    out = [["members", i] for i in range(len(tree.get("members", [])))]

    def walk(n, path):
        out.append(path)
        for i, st in enumerate(n.get("steps", [])):
            if "p" in st["run"]:
                walk(st["run"]["p"], path + ["steps", i, "run", "p"])
    walk(tree["root"], ["root"])
    return out


def get(t, path):
    for k in path:
        t = t[k]
    return t


def shrink_tree(tree):
    def edit(path, fn):
        t = copy.deepcopy(tree)
        fn(get(t, path))
        return t
    for p in nodes(tree):
        n = get(tree, p)
        for k in ("steps",):
            if len(n.get(k, [])) > 1:
                for i in range(len(n[k])):
                    if i == 0 and n.get("outputs"):
                        continue
                    yield edit(p, lambda x, i=i: x["steps"].pop(i))
        for k in ("doc", "args", "hints", "reqmap", "inimp", "stepmap", "reqimport", "showver"):
            if n.get(k):
                yield edit(p, lambda x, k=k: x.pop(k))
        for k in ("reqs", "inputs"):
            for i in range(len(n.get(k, []))):
                if k == "inputs" and len(n[k]) == 1:
                    continue
                yield edit(p, lambda x, k=k, i=i: x[k].pop(i))
        if n.get("types") and not has_ref(n.get("inputs")) and not has_ref([s["run"] for s in n.get("steps", [])]):
            yield edit(p, lambda x: x.pop("types"))
        for i, st in enumerate(n.get("steps", [])):
            c = st["run"]
            if c.get("p", {}).get("k") == "wf" and len(c["p"].get("steps", [])) == 1 and False:
                pass
            for k in ("hints", "reqs", "label"):
                if st.get(k):
                    yield edit(p, lambda x, i=i, k=k: x["steps"][i].pop(k))
            if c.get("loc") not in (None, "same"):
                yield edit(p, lambda x, i=i: x["steps"][i]["run"].update(loc="same"))
        for i, inp in enumerate(n.get("inputs", [])):
            if inp["t"] != "string":
                yield edit(p, lambda x, i=i: x["inputs"][i].update(t="string"))
            for k in ("doc", "imp"):
                if inp.get(k):
                    yield edit(p, lambda x, i=i, k=k: x["inputs"][i].pop(k))
    if tree.get("style"):
        yield dict(tree, style=0)
    # every fragment in place
    def frags(v, path, out):
        if isinstance(v, dict):
            if v.get("loc") and "n" in v and "how" not in v:
                out.append(path)
            for k, x in v.items():
                frags(x, path + [k], out)
        elif isinstance(v, list):
            for i, x in enumerate(v):
                frags(x, path + [i], out)
    fl = []
    frags(tree["root"], ["root"], fl)
    for p in fl:
        if "chain" in get(tree, p):
            yield edit(p, lambda x: x.pop("chain"))
        if get(tree, p)["loc"] not in ("same",):
            yield edit(p, lambda x: x.update(loc="same"))
        if p[-1] not in ("inimp", "imp"):
            yield edit(p, lambda x: [x.pop("loc"), x.pop("chain", None)])

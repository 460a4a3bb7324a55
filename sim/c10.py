"""C10: saving container images: what is under the final name is complete, and what a failed run leaves is never taken for it."""
import copy
import os
import posixpath
import sys

from . import core, procs
from .base import Check, Result, list_shrinks
from .fs import FS, SimCrash, Std
from .programs import Machine, ProgWorld, norm
from .state import ModuleState

IMGS = ["ubuntu:20.04", "debian:stable-slim", "ubuntu", "quay.io/biocontainers/samtools:1.9--h1", "docker.io/library/alpine:3.18", "registry.local:5000/team/tool:2.1",
        "biocontainers/bwa:v0.7.17_cv1", "python", "a/b:1", "org/a_b:1", "ghcr.io/x/y@sha256:0123abc", "x/y.z:1.0"]
COLLIDE = [("a/bc:1", "ab/c:1", "docker"), ("a/b:c", "a_b:c", "singularity")]
DIR = "/sim/work/images"


def content(ref, gen, engine):
    tag = b"SIF" if engine == "singularity" else b"TAR"
    b = b"%s<%s gen=%d>" % (tag, norm(ref).encode(), gen)
    return b + b"." * (40 + 3 * len(norm(ref))) + b"<END>"


def parse(data):
    """-> (ref, generation) of a complete image, or None"""
    if not data.endswith(b"<END>") or b"<" not in data:
        return None
    try:
        head = data.split(b"<", 1)[1].split(b">", 1)[0].decode()
        ref, gen = head.rsplit(" gen=", 1)
        eng = "singularity" if data.startswith(b"SIF") else "oci"
        return (ref, int(gen)) if content(ref, int(gen), eng) == data else None
    except Exception:
        return None


def final_name(ref, engine, v26):
    if engine == "singularity":
        return ref.replace("/", "_").replace(":", "_") + (".img" if v26 else ".sif")
    return ("".join(ref.split("/")) + ".tar").replace(":", "_")


class PWorld(ProgWorld):
    def __init__(self, m, fs):
        super().__init__(m)
        self.fs = fs
        self.gen = {}            # registry: ref -> generation
        self.local = {}          # engine -> ref -> generation
        self.cmds = []           # (verb, ref, ok) of this lifetime
        self.faults = []         # per lifetime: {"verb", "at", "k"...}
        self.seen = {}
        self.fired = []

    def started(self, s, proc):
        super().started(s, proc)
        self.last = proc

    def next_fault(self, verb, sim):
        n = self.seen.get(verb, 0)
        self.seen[verb] = n + 1
        for f in self.faults:
            if f["verb"] == verb and f["at"] == n:
                self.fired.append(f["k"] + "@" + verb)
                sim.fired("image-%s-%s" % (verb, f["k"]))
                return f
        return {"k": None}

    def transfer(self, sim, proc, ref, path, data, verb):
        """Write a file in steps; the fault of this command hits somewhere on the way."""
        f = self.flt
        k = f["k"]
        fs = self.fs
        if k == "fail-early":
            yield ("write", 2, b"error: denied\n")
            self.cmds.append((verb, ref, False))
            yield ("exit", 1)
        n = len(data)
        steps = [0, n // 4, n // 2, n - 3, n]
        stop = int(f.get("frac", 0.5) * 4)
        if not fs.k_exists(posixpath.dirname(path)):
            yield ("write", 2, b"open: no such file or directory\n")
            self.cmds.append((verb, ref, False))
            yield ("exit", 1)
        for i in range(4):
            if k in ("fail", "killed", "enospc", "hang-interrupt") and i >= stop:
                if k == "hang-interrupt":
                    yield ("sleep", 50.0)
                self.cmds.append((verb, ref, False))
                if k == "killed":
                    proc.die(f.get("sig", 9))
                    yield ("hang",)
                if f.get("clean"):
                    fs.k_unlink(path)
                yield ("write", 2, b"error: unexpected EOF\n" if k == "fail" else b"no space left on device\n")
                yield ("exit", f.get("code", 1))
            yield ("sleep", 0.5)
            if not fs.k_exists(posixpath.dirname(path)):
                yield ("exit", 1)
            fs.k_write(path, data[:steps[i + 1]])
        if k == "fail-late":      # everything is there, but the command says no
            self.cmds.append((verb, ref, False))
            yield ("write", 2, b"error: could not verify\n")
            yield ("exit", f.get("code", 1))
        self.cmds.append((verb, ref, True))

    def do_pull(self, sim, proc, engine, ref, forced=False):
        f = self.next_fault("pull", sim)
        yield ("sleep", 2.0)
        if f["k"] is not None:
            self.cmds.append(("pull", norm(ref), False))
            if f["k"] == "killed":
                proc.die(f.get("sig", 9))
                yield ("hang",)
            return "fail"
        self.local.setdefault(engine, {})[norm(ref)] = self.gen.get(norm(ref), 0)
        self.m.images.setdefault(engine, set()).add(norm(ref))
        self.cmds.append(("pull", norm(ref), True))
        self.note(sim, engine, "pulled", norm(ref), True)
        return "ok"

    def save(self, sim, proc, name, a):
        out, refs = None, []
        i = 0
        while i < len(a):
            o, eq, v = a[i].partition("=")
            if o in ("-o", "--output"):
                if not eq:
                    i += 1
                    v = a[i]
                out = v
            elif o in ("--format", "-q", "--quiet"):
                if o == "--format" and not eq:
                    i += 1
            elif not o.startswith("-"):
                refs.append(a[i])
            i += 1
        f = self.next_fault("save", sim)
        if len(refs) != 1:
            yield ("exit", 125)
        ref = norm(refs[0])
        g = self.local.get(name, {}).get(ref)
        if g is None:
            self.cmds.append(("save", ref, False))
            yield ("write", 2, b"Error: no such image\n")
            yield ("exit", 125)
        data = content(ref, g, name)
        if out is None:      # to standard output
            if f["k"] is not None:
                yield ("write", 1, data[:int(len(data) * f.get("frac", 0.5))])
                self.cmds.append(("save", ref, False))
                yield ("exit", 1)
            yield ("write", 1, data)
            self.cmds.append(("save", ref, True))
            yield ("exit", 0)
        path = self.fs.absolute(out if out.startswith("/") else posixpath.join(proc.cwd or self.fs.cwd, out))
        if name == "podman" and self.fs.k_read(path):
            yield ("write", 2, b"Error: docker-archive doesn't support modifying existing images\n")
            self.cmds.append(("save", ref, False))
            yield ("exit", 125)
        self.flt = f
        if name == "docker":         # writes to a temporary name of its own and renames
            tmp = posixpath.join(posixpath.dirname(path), ".docker_temp_%d" % proc.pid)
            yield from self.transfer(sim, proc, ref, tmp, data, "save")
            self.fs.k_rename(tmp, path)
        else:
            yield from self.transfer(sim, proc, ref, path, data, "save")
        self.note(sim, name, "saved", ref, True)
        yield ("exit", 0)

    def singularity_store(self, sim, proc, ref, target, force):
        fs = self.fs
        target = fs.absolute(target)
        f = self.next_fault("pull", sim)
        r = norm(ref)
        if fs.k_exists(target) and not force:
            self.cmds.append(("pull", r, False))
            yield ("write", 2, b"FATAL: Image file already exists: will not overwrite\n")
            yield ("exit", 255)
        g = self.gen.get(r, 0)
        self.flt = f
        yield ("sleep", 1.0)
        yield from self.transfer(sim, proc, r, target, content(r, g, "singularity"), "pull")
        self.note(sim, "singularity", "pulled", r, True)
        yield ("exit", 0)


DOC = """cwlVersion: v1.2
class: %s
id: p
inputs: []
outputs: []
%s
"""


def make_doc(imgs):
    """A workflow whose steps ask for these images (a tool for a single one)."""
    def tool(i, img, pad=""):
        return ("{class: CommandLineTool, id: t%d, inputs: [], outputs: [], baseCommand: 'true', requirements: [{class: DockerRequirement, dockerPull: '%s'}]}" % (i, img))
    if len(imgs) == 1:
        return "{cwlVersion: v1.2, " + tool(0, imgs[0])[1:] + "\n"
    steps = ["- {id: s%d, in: [], out: [], run: %s}" % (i, tool(i, g)) for i, g in enumerate(imgs)]
    return "cwlVersion: v1.2\nclass: Workflow\nid: wf\ninputs: []\noutputs: []\nsteps:\n" + "\n".join(steps) + "\n"


class C10(Check):
    id = "C10"

    def setup(self):
        import cwl_utils.docker_extract as d
        import cwl_utils.image_puller as ip
        import cwl_utils.singularity as sg
        import cwl_utils.utils as ut
        self.state = ModuleState(d, ip, sg, ut)

    def gen(self, rng, tier):
        eng = rng.choice(["docker", "podman", "singularity", "singularity", "singularity"])
        v26 = eng == "singularity" and rng.random() < 0.2
        if rng.random() < 0.03:
            a, b, e = COLLIDE[0] if eng != "singularity" else COLLIDE[1]
            imgs = [a, b]
        else:
            imgs = rng.sample(IMGS, rng.choices([1, 2, 3], [5, 3, 1])[0])
            if len(imgs) > 1 and rng.random() < 0.1:
                imgs.append(imgs[0])
        lives = []
        for i in range(rng.randint(1, 5)):
            L = {"force": rng.random() < 0.4, "via": "main" if rng.random() < 0.25 else "puller"}
            if rng.random() < 0.7:
                fs = []
                for _ in range(rng.choices([1, 2], [4, 1])[0]):
                    kind = rng.choice(["cmd", "cmd", "cmd", "cmd", "ki", "crash", "fs", "fscrash", "spawn"])
                    if kind == "cmd":
                        verb = "pull" if eng == "singularity" else rng.choice(["pull", "save", "save"])
                        k = rng.choice(["fail", "killed", "fail-early", "enospc", "fail-late", "killed"])
                        fs.append({"t": "cmd", "verb": verb, "at": rng.randrange(len(imgs)), "k": k, "frac": rng.choice([0, 0.3, 0.6, 0.9]), "clean": rng.random() < 0.4,
                                   "code": rng.choice([1, 2, 125, 255]), "sig": rng.choice([9, 15, 11])})
                    elif kind in ("ki", "crash"):
                        fs.append({"t": kind, "at": rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 13, 17, 22, 30])})
                    elif kind == "fs":
                        fs.append({"t": "fs", "k": "errno", "op": rng.choice(["mut", "any", "rename", "unlink", "mkdir", "rmdir", "stat"]), "at": rng.choice([0, 0, 1, 2, 3, 5]), "errno": rng.choice([5, 13, 28, 30])})
                    elif kind == "fscrash":
                        fs.append({"t": "fs", "k": "crash", "op": rng.choice(["any", "mut"]), "at": rng.choice([0, 1, 2, 3, 4, 6, 9]), "after": rng.random() < 0.5, "keep": rng.choice([0.0, 0.5, 1.0])})
                    else:
                        fs.append({"t": "spawn", "at": rng.randrange(2 * len(imgs)), "errno": rng.choice([2, 11, 12, 13, 24])})
                L["faults"] = fs
            if rng.random() < 0.3:
                L["newgen"] = True
            if rng.random() < 0.1:
                L["imgs"] = rng.sample(IMGS, 1)
            lives.append(L)
        lives.append({"force": rng.random() < 0.2, "via": "puller"})
        return {"engine": eng, "v26": v26, "imgs": imgs, "lives": lives, "mkdir": rng.random() < 0.7, "salt": rng.randrange(5),
                "cfg": {"p_split": rng.choice([0, 0.3]), "p_fast": rng.choice([1.0, 0.8])}}

    def execute(self, scen, seed, replay=None, log=False):
        import cwl_utils.docker_extract as d
        import cwl_utils.image_puller as ip
        sim = core.Sim(seed, replay, dict(scen["cfg"], log=log, max_points=60000, max_time=8000.0))
        fs = FS(sim, scen["salt"])
        eng = scen["engine"]
        m = Machine({"engines": [eng], "singularity": {"out": "singularity version 2.6.1" if scen["v26"] else "singularity-ce version 3.11.4", "userns": "yes"}})
        w = PWorld(m, fs)
        sim.world = w
        res = Result()
        hist = []
        spawnf = {}

        def spawn_fault(s, name, argv):
            n = spawnf.get("n", 0)
            spawnf["n"] = n + 1
            for f in spawnf.get("l", ()):
                if f["at"] == n:
                    w.fired.append("spawn")
                    s.fired("spawn-failure")
                    return OSError(f["errno"], "injected", argv[0])
            return None
        w.spawn_fault = spawn_fault

        def life(i, L):
            st = sim.threads[0]
            self.state.restore()
            fs.lifetime()
            w.cmds, w.seen, w.fired = [], {}, []
            spawnf.clear()
            fl = L.get("faults", [])
            w.faults = [f for f in fl if f["t"] == "cmd"]
            spawnf["l"] = [f for f in fl if f["t"] == "spawn"]
            fs.faults = [{k: v for k, v in f.items() if k != "t"} for f in fl if f["t"] == "fs"]
            imgs = L.get("imgs", scen["imgs"])
            for f in fl:
                if f["t"] == "ki":
                    st.ki_at, st.ki_exc = f["at"], None
                elif f["t"] == "crash":
                    def boom():
                        sim.fired("process-crash")
                        w.fired.append("crash")
                        fs.crash()
                    st.ki_at, st.ki_exc = f["at"], boom
            if L.get("newgen"):
                for r in scen["imgs"]:
                    w.gen[norm(r)] = w.gen.get(norm(r), 0) + 1
            if scen["mkdir"] or L["via"] == "puller":
                if not fs.k_exists(DIR):
                    fs.k_mkdir(DIR)
            fs.k_write("/sim/work/doc.cwl", make_doc(imgs))
            rec = {"i": i, "L": L, "imgs": imgs, "before": fs.tree(DIR) if fs.k_exists(DIR) else {}, "gen0": dict(w.gen)}
            hist.append(rec)
            with Std(fs) as std:
                try:
                    if L["via"] == "main":
                        old = sys.argv
                        sys.argv = ["cwl-docker-extract", "--dir", DIR] + (["-s"] if eng == "singularity" else ["--container-engine", eng]) + (
                            ["--force-download"] if L["force"] else []) + ["doc.cwl"]
                        try:
                            rc = d.main()
                        finally:
                            sys.argv = old
                        rec["out"] = "ok" if rc in (0, None) else "exit %r" % rc
                    else:
                        P = ip.SingularityImagePuller if eng == "singularity" else ip.DockerImagePuller
                        for r in imgs:
                            rr = r if ":" in r else r + ":latest"
                            P(rr, DIR, eng, L["force"]).save_docker_image()
                        rec["out"] = "ok"
                except core.SimExit:
                    raise
                except SimCrash:
                    rec["out"] = "crash"
                except KeyboardInterrupt:
                    rec["out"] = "interrupt"
                    w.fired.append("interrupt")
                except SystemExit as e:
                    rec["out"] = "ok" if e.code in (0, None) else "exit %r" % (e.code,)
                except BaseException as e:
                    rec["out"] = "raise %s: %s" % (type(e).__name__, str(e)[:150])
                    del e
                if rec["out"] not in ("crash", "interrupt"):
                    fin = std.finish()
                    if fin == "crash":
                        rec["out"] = "crash"
                    elif not fin and rec["out"] == "ok":
                        rec["out"] = "stdout failed"
            st.ki_at = st.ki_exc = None
            fs.active = False
            # the process group dies with its leader; commands it waited for are gone too
            for p in list(sim.procs.values()):
                if p.alive:
                    p.die(9)
            rec["fired"] = list(w.fired) + list(fs.hit)
            rec["cmds"] = list(w.cmds)
            rec["after"] = fs.tree(DIR) if fs.k_exists(DIR) else {}
            rec["nspawn"] = spawnf.get("n", 0)
            fs.active = True
            sim.trace("life", i, rec["out"].split(":")[0])
            sim.sleep(1.0)

        sim.run([("T0", lambda: [life(i, L) for i, L in enumerate(scen["lives"])])])
        self.judge(scen, sim, hist, w, res)
        res.take(sim)
        res.ops = len(hist)
        return res

    def judge(self, scen, sim, hist, w, res):
        eng = scen["engine"]
        if sim.abort_reason not in (None, "drivers-done"):
            if sim.abort_reason in ("deadlock",):
                res.violate("never-ends", "deadlock")
            else:
                res.inconclusive = sim.abort_reason
            return
        for h in hist:
            if "after" not in h:
                continue
            L = h["L"]
            name = "run %d (%s, force=%s, faults %s): %s" % (h["i"], eng, L["force"], h["fired"], h["out"])
            res.probes[h["out"].split(" ")[0]] = res.probes.get(h["out"].split(" ")[0], 0) + 1
            want = {}
            for r in h["imgs"]:
                rr = r if ":" in r else r + ":latest"
                want.setdefault(final_name(rr, eng, scen["v26"]), []).append(norm(rr))
            pulled = {}
            for verb, ref, ok in h["cmds"]:
                if verb == "pull" and ok:
                    pulled[ref] = True
            if h["out"] == "ok":
                for fn, refs in want.items():
                    data = h["after"].get(DIR + "/" + fn)
                    col = len(set(refs)) > 1
                    got = parse(data) if isinstance(data, bytes) else None
                    if data is None or not isinstance(data, bytes):
                        res.violate("missing", "%s: no file %s after success; directory %s" % (name, fn, sorted(h["after"])))
                    elif got is None:
                        res.violate("incomplete", "%s: %s holds %r" % (name, fn, data[:80]))
                    elif col:
                        res.violate("name-collision", "%s: images %s share the file name %s" % (name, sorted(set(refs)), fn), "collision:" + ("singularity" if eng == "singularity" else "oci"))
                    elif got[0] != refs[0]:
                        res.violate("wrong-image", "%s: %s holds %s instead of %s" % (name, fn, got[0], refs[0]))
                    elif L["force"] and (got[1] != h["gen0"].get(refs[0], 0) or refs[0] not in pulled):
                        res.violate("force-ignored", "%s: %s holds generation %s, the registry has %s, pulled %s" % (name, fn, got[1], h["gen0"].get(refs[0], 0), sorted(pulled)))
                last = {}
                for verb, ref, ok in h["cmds"]:
                    last[(verb, ref)] = ok
                bad = [k for k, ok in last.items() if not ok]
                if bad:
                    res.violate("failure-not-reported", "%s although %s failed" % (name, bad))
            else:
                # anything complete before stays
                for p, data in h["before"].items():
                    if isinstance(data, bytes) and parse(data) is not None and posixpath.basename(p) in want and posixpath.dirname(p) == DIR:
                        now = h["after"].get(p)
                        if not isinstance(now, bytes) or parse(now) is None or parse(now)[0] != parse(data)[0] and len(set(want[posixpath.basename(p)])) == 1:
                            res.violate("image-lost", "%s: %s was complete and is now %r" % (name, posixpath.basename(p), None if now is None else now[:60]))
                if not h["fired"]:
                    res.violate("fails", "%s although nothing went wrong; directory before %s" % (name, sorted(h["before"])))
            if eng == "singularity" and not L["force"]:
                for verb, ref, ok in h["cmds"]:
                    for fn, refs in want.items():
                        b = h["before"].get(DIR + "/" + fn)
                        if refs == [ref] and isinstance(b, bytes) and parse(b) is not None and parse(b)[0] == ref:
                            res.violate("pulled-again", "%s: %s was already saved" % (name, ref))

    def shrinks(self, scen):
        for l in list_shrinks(scen["lives"]):
            if l:
                yield dict(scen, lives=l)
        if len(scen["imgs"]) > 1:
            for l in list_shrinks(scen["imgs"]):
                if l:
                    yield dict(scen, imgs=l)
        for i, L in enumerate(scen["lives"]):
            for fl in list_shrinks(L.get("faults", [])):
                yield dict(scen, lives=scen["lives"][:i] + [dict(L, faults=fl)] + scen["lives"][i + 1:])
            for k in ("newgen", "imgs"):
                if k in L:
                    yield dict(scen, lives=scen["lives"][:i] + [{a: b for a, b in L.items() if a != k}] + scen["lives"][i + 1:])
            if L["force"]:
                yield dict(scen, lives=scen["lives"][:i] + [dict(L, force=False)] + scen["lives"][i + 1:])
            if L["via"] == "main":
                yield dict(scen, lives=scen["lives"][:i] + [dict(L, via="puller")] + scen["lives"][i + 1:])

"""Simulated installed programs: node, docker, podman, udocker, singularity.  Behaviour comes from a mutable machine state."""
import os
import re

from . import procs
from .nodehost import node_engine

SIF_DONE = b"SIF-COMPLETE:"
IMG_NODE = "v22.4.1"


def norm(ref):
    """Image reference as the registry sees it."""
    r = re.sub(r"^docker://", "", ref)
    r = re.sub(r"^(docker\.io/)?(library/)?", "", r)
    return r if ":" in r.rsplit("/", 1)[-1] else r + ":latest"


class Machine:
    """State of the simulated host.  `alias`: name -> dict(v, mode); `store`: engine -> set of image refs;
    `daemon`: engine -> "ok"|"down"; `pull`: engine -> list of outcomes consumed per pull (then "ok")."""

    def __init__(self, spec):
        self.alias = {k: dict(v) for k, v in spec.get("alias", {}).items()}
        self.engines = set(spec.get("engines", ()))
        self.images = {e: {norm(i) for i in l} for e, l in spec.get("images", {}).items()}
        self.daemon = dict(spec.get("daemon", {}))
        self.pull = {e: list(l) for e, l in spec.get("pull", {}).items()}
        self.run = {e: list(l) for e, l in spec.get("run", {}).items()}
        self.singularity = dict(spec.get("singularity", {"out": "singularity-ce version 3.11.4", "userns": "yes"}))
        self.pull_time = spec.get("pull_time", 3.0)
        self.log = []          # (time, engine, verb, detail, ok)


class ProgWorld(procs.World):
    """Worlds of the container checks.  `m` is the Machine."""

    def __init__(self, machine):
        super().__init__()
        self.m = machine
        self.engine_procs = []
        for n in ("nodejs", "node"):
            self.programs[n] = self.p_node(n)
        for n in ("docker", "podman", "udocker"):
            self.programs[n] = self.p_oci(n)
        self.programs["singularity"] = self.p_singularity("singularity")

    # ---- process table ---------------------------------------------------------------------------
    def started(self, s, proc):
        own = s.current
        while own is not None and own.opdata is None:
            own = own.parent
        proc.meta["owner"] = own.id if own is not None else None
        proc.meta["op"] = own.opdata.get("op") if own is not None else None
        proc.meta["engine"] = any("process.stdin" in x for x in proc.args)
        proc.meta["writers"] = set()
        if proc.meta["engine"]:
            proc.meta["ordinal"] = len(self.engine_procs)
            self.engine_procs.append(proc)

    def spawn(self, s, popen, argv, cwd, env):
        name = os.path.basename(argv[0])
        a = self.m.alias.get(name)
        if name in ("node", "nodejs") and (a is None or a["mode"] == "absent"):
            self.note(s, name, "spawn", "absent", False)
            raise FileNotFoundError(2, "No such file or directory", argv[0])
        if a is not None and a["mode"] == "eacces":
            raise PermissionError(13, "Permission denied", argv[0])
        if a is not None and a["mode"] == "enoexec":
            raise OSError(8, "Exec format error", argv[0])
        if name in ("docker", "podman", "udocker", "singularity") and name not in self.m.engines:
            self.note(s, name, "spawn", "absent", False)
            raise FileNotFoundError(2, "No such file or directory", argv[0])
        super().spawn(s, popen, argv, cwd, env)

    def note(self, s, engine, verb, detail, ok):
        self.m.log.append((s.now, engine, verb, detail, ok))
        s.trace("machine", engine, verb, detail, ok)

    # ---- programs --------------------------------------------------------------------------------
    def p_node(self, name):
        def prog(sim, proc, argv):
            a = argv[1:]
            st = self.m.alias[name]
            if a and a[0] in ("-v", "--version"):
                if st["mode"] == "version-fails":
                    yield ("exit", 1)
                if st["mode"] == "version-signal":
                    yield ("exit", 134)
                yield ("write", 1, (st["v"] + "\n").encode())
                yield ("exit", 0)
            if len(a) >= 2 and a[0] in ("-e", "--eval", "-p", "-pe", "--print"):
                if st["mode"] == "eval-fails":
                    yield ("write", 2, b"node: bad option\n")
                    yield ("exit", 9)
                if st["mode"] == "eval-wrong":
                    yield ("write", 1, b"Usage: node [address]\n")
                    yield ("exit", 0)
                code = a[1]
                if a[0] != "-e" and a[0] != "--eval":
                    code = "process.stdout.write(String(" + code + ")+'\\n')"
                proc.meta["node_version"] = st["v"]
                proc.meta["via"] = name
                yield from node_engine(sim, proc, code, st["v"] if re.match(r"v\d", st["v"]) else None)
            yield ("exit", 9)
        return prog

    def image_node(self, sim, proc, args, via):
        """`node --eval CODE` inside the image."""
        if len(args) >= 3 and args[0] in ("node", "nodejs") and args[1] in ("-e", "--eval"):
            proc.meta["node_version"] = IMG_NODE
            proc.meta["via"] = via
            yield from node_engine(sim, proc, args[2], IMG_NODE)
            yield ("exit", 0)
        if args[:2] in (["node", "-v"], ["node", "--version"]):
            yield ("write", 1, (IMG_NODE + "\n").encode())
            yield ("exit", 0)
        yield ("write", 2, b"executable file not found\n")
        yield ("exit", 127)

    def do_pull(self, sim, proc, engine, ref, forced=False):
        """Registry transfer; returns outcome after simulated time."""
        l = self.m.pull.get(engine) or []
        out = l.pop(0) if l else "ok"
        if out == "race":
            out = "ok"
        yield ("sleep", self.m.pull_time)
        if out == "ok":
            self.m.images.setdefault(engine, set()).add(norm(ref))
            self.note(sim, engine, "pulled", norm(ref), True)
            return "ok"
        sim.fired("pull-" + out)
        self.note(sim, engine, "pulled", norm(ref), False)
        if out == "killed":
            proc.die(9)
            yield ("hang",)
        return out

    def p_oci(self, name):
        def prog(sim, proc, argv):
            a = list(argv[1:])
            m = self.m
            verb = a[0] if a else ""
            self.note(sim, name, "cmd", " ".join(x[:40] for x in a[:12]), True)
            if m.daemon.get(name, "ok") != "ok" and verb != "--version":
                yield ("write", 2, b"Cannot connect to the daemon. Is it running?\n")
                yield ("exit", 1)
            if verb == "images":
                have = m.images.get(name, set())
                if name == "udocker":
                    if [x for x in a[1:] if x not in ("-l", "-p")]:
                        yield ("exit", 1)
                    yield ("write", 1, b"REPOSITORY\n" + b"".join(
                        ("docker.io/library/%s    .\n" % i if "/" not in i else "docker.io/%s    .\n" % i).encode() for i in sorted(have)))
                    yield ("exit", 0)
                q = [x for x in a[1:] if not x.startswith("-")]
                hit = [i for i in sorted(have) if not q or norm(q[0]) == i]
                if "-q" in a or "--quiet" in a:
                    yield ("write", 1, b"".join(b"9aa4%08x\n" % (abs(hash_str(i)) % 16 ** 8) for i in hit))
                else:
                    yield ("write", 1, b"REPOSITORY TAG IMAGE\n" + b"".join((i.replace(":", " ") + " 9aa4\n").encode() for i in hit))
                yield ("exit", 0)
            if verb == "image" and a[1:2] == ["inspect"]:
                yield ("exit", 0 if norm(a[-1]) in m.images.get(name, set()) else 1)
            if verb == "pull":
                opts = [x for x in a[1:] if x.startswith("-")]
                refs = [x for x in a[1:] if not x.startswith("-")]
                known = {"-q", "--quiet", "-a", "--all-tags"} if name != "udocker" else set()
                bad = [o for o in opts if o.split("=")[0] not in known]
                if bad or len(refs) != 1:
                    yield ("write", 2, ("unknown flag: %s\n" % (bad or refs)).encode())
                    self.note(sim, name, "bad-usage", " ".join(a), False)
                    yield ("exit", 125)
                out = yield from self.do_pull(sim, proc, name, refs[0])
                if out != "ok":
                    yield ("write", 2, b"Error response: toomanyrequests\n")
                    yield ("exit", 1)
                yield ("write", 1, b"Status: Downloaded newer image\n")
                yield ("exit", 0)
            if verb == "run":
                i, interactive, attach, detach = 1, name == "udocker", set(), False
                while i < len(a) and a[i].startswith("-"):
                    o, _, v = a[i].partition("=")
                    if o in ("-i", "--interactive", "-it"):
                        interactive = True
                    elif o in ("-a", "--attach"):
                        attach.add(v.lower())
                    elif o in ("-d", "--detach"):
                        detach = True
                    elif o in ("--name", "-v", "--volume", "--cidfile", "-w", "--workdir", "-u", "--user", "-e", "--env") and not v:
                        i += 1
                    i += 1
                if i >= len(a):
                    yield ("exit", 125)
                ref, cmd = a[i], a[i + 1:]
                if norm(ref) not in m.images.get(name, set()):
                    out = yield from self.do_pull(sim, proc, name, ref)
                    if out != "ok":
                        yield ("write", 2, b"Unable to find image locally\n")
                        yield ("exit", 125)
                r = m.run.get(name) or []
                r = r.pop(0) if r else "ok"
                if r != "ok":
                    sim.fired("container-run-" + r)
                    self.note(sim, name, "run", r, False)
                    yield ("write", 2, b"OCI runtime create failed\n")
                    yield ("exit", 126)
                self.note(sim, name, "run", norm(ref), True)
                proc.meta["image"] = norm(ref)
                if detach:
                    yield ("write", 1, b"f00df00d\n")
                    yield ("exit", 0)
                if attach and not {"stdin", "stdout", "stderr"} <= attach:
                    yield ("hang",)
                if not interactive:
                    yield ("exit", 0)       # node sees the end of its input at once
                yield from self.image_node(sim, proc, cmd, name)
            if verb == "save":
                yield from self.save(sim, proc, name, a[1:])
            if verb in ("kill", "rm", "stop", "rmi"):
                yield ("exit", 0)
            yield ("exit", 125)
        return prog

    def save(self, sim, proc, name, a):
        yield ("exit", 125)

    def singularity_pull(self, sim, proc, args):
        """singularity pull [--force] [--name N] docker://REF -> file in cwd."""
        force = False
        name = None
        pos = []
        i = 0
        while i < len(args):
            o, eq, v = args[i].partition("=")
            if o in ("--force", "-F"):
                force = True
            elif o in ("--name", "-n"):
                if not eq:
                    i += 1
                    v = args[i]
                name = v
            elif o in ("--dir", "--pull-folder"):
                if not eq:
                    i += 1
                    v = args[i]
                os.makedirs(v, exist_ok=True)
                name = os.path.join(v, name or "")
            elif o.startswith("-"):
                pass
            else:
                pos.append(args[i])
            i += 1
        if len(pos) == 2:
            name, pos = pos[0], pos[1:]
        if len(pos) != 1 or not pos[0].startswith("docker://"):
            self.note(sim, "singularity", "bad-usage", " ".join(args), False)
            yield ("write", 2, b"FATAL: Unable to pull: unsupported transport\n")
            yield ("exit", 255)
        ref = pos[0]
        if name is None:
            base = norm(ref).rsplit("/", 1)[-1]
            name = base.replace(":", "_") + ".sif"
        target = os.path.join(proc.cwd or os.getcwd(), name)
        yield from self.singularity_store(sim, proc, ref, target, force)

    def singularity_store(self, sim, proc, ref, target, force):
        if os.path.exists(target) and not force:
            self.note(sim, "singularity", "pull-exists", os.path.basename(target), False)
            yield ("write", 2, b"FATAL: Image file already exists: will not overwrite\n")
            yield ("exit", 255)
        l = self.m.pull.get("singularity") or []
        race = bool(l) and l[0] == "race"
        if race:
            l[0] = "ok"
            race = not force
        out = yield from self.do_pull(sim, proc, "singularity", ref)
        if out == "ok":
            with procs_open(target, "wb") as f:
                f.write(SIF_DONE + norm(ref).encode())
            if race:      # another process was faster
                sim.fired("pull-race")
                yield ("write", 2, b"FATAL: Image file already exists: will not overwrite\n")
                yield ("exit", 255)
            yield ("exit", 0)
        yield ("write", 2, b"FATAL: While making image from oci registry: error fetching image\n")
        yield ("exit", 255)

    def p_singularity(self, name):
        def prog(sim, proc, argv):
            a = list(argv[1:])
            m = self.m
            sg = m.singularity
            self.note(sim, name, "cmd", " ".join(os.path.basename(x)[:40] for x in a[:12]), True)
            if a[:1] in (["--version"], ["version"]):
                yield from self.singularity_version(sim, proc)
            if a[:1] == ["pull"]:
                yield from self.singularity_pull(sim, proc, a[1:])
            if a[:1] == ["exec"]:
                i = 1
                userns = False
                while i < len(a) and a[i].startswith("-"):
                    userns = userns or a[i] in ("--userns", "-u")
                    i += 1
                img, cmd = a[i], a[i + 1:]
                if img.endswith("hello.simg"):
                    yield from self.userns_probe(sim, proc, userns)
                if userns and sg.get("userns") != "yes":
                    yield ("write", 2, b"FATAL: user namespaces are not supported\n")
                    yield ("exit", 255)
                if img.startswith("docker://"):
                    out = yield from self.do_pull(sim, proc, name, img)
                    if out != "ok":
                        yield ("write", 2, b"FATAL: Unable to handle docker:// uri\n")
                        yield ("exit", 255)
                else:
                    try:
                        with procs_open(os.path.join(proc.cwd or os.getcwd(), img), "rb") as f:
                            ok = f.read().startswith(SIF_DONE)
                    except OSError:
                        ok = False
                    if not ok:
                        yield ("write", 2, b"FATAL: could not open image: no such file or not a SIF\n")
                        yield ("exit", 255)
                r = m.run.get(name) or []
                r = r.pop(0) if r else "ok"
                if r != "ok":
                    sim.fired("container-run-" + r)
                    self.note(sim, name, "run", r, False)
                    yield ("write", 2, b"FATAL: container creation failed\n")
                    yield ("exit", 255)
                self.note(sim, name, "run", os.path.basename(img), True)
                proc.meta["image"] = img
                yield from self.image_node(sim, proc, cmd, name)
            yield ("exit", 1)
        return prog

    def singularity_version(self, sim, proc):
        yield ("write", 1, (self.m.singularity["out"] + "\n").encode())
        yield ("exit", 0)

    def userns_probe(self, sim, proc, userns):
        u = self.m.singularity.get("userns")
        if u == "hang":
            sim.fired("userns-probe-hang")
            yield ("hang",)
        if u == "yes" or not userns:
            yield ("write", 2, self.m.singularity.get("yes_msg", 'FATAL:   "/bin/sh doesn\'t exist in container').encode() + b"\n")
            yield ("exit", 255)
        if u == "signal":
            proc.die(11)
            yield ("hang",)
        yield ("write", 2, b"ERROR: Failed to create user namespace: not permitted\n")
        yield ("exit", 1)


def hash_str(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) & 0x7FFFFFFF
    return h


def procs_open(path, mode):
    """Real file access by simulated programs: not a pre-emption point of the code under test."""
    return procs.o_io_open(path, mode)

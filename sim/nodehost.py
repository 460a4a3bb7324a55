"""Client of nodehost.js: one real node process per worker, used synchronously (no nondeterminism left)."""
import base64
import json
import os
import subprocess

from . import procs
from .core import HarnessError

HERE = os.path.dirname(os.path.abspath(__file__))


class NodeHost:
    def __init__(self):
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent", "LANG": "C.UTF-8"}
        self.r, cw = procs.o_pipe()
        cr, self.w = procs.o_pipe()
        self.p = procs.RealPopen(["node", "--max-old-space-size=1024", os.path.join(HERE, "nodehost.js")],
                                 stdin=cr, stdout=cw, stderr=subprocess.DEVNULL, env=env)
        procs.o_close(cr)
        procs.o_close(cw)
        self.buf = b""
        self.next = 0
        self.calls = 0

    def call(self, **cmd):
        self.calls += 1
        data = json.dumps(cmd).encode() + b"\n"
        mv = memoryview(data)
        while len(mv):
            n = procs.o_write(self.w, mv)
            mv = mv[n:]
        while b"\n" not in self.buf:
            if not procs.o_select([self.r], [], [], 60)[0]:
                raise HarnessError("node host does not answer: %s" % data[:300])
            d = procs.o_read(self.r, 1 << 20)
            if not d:
                raise HarnessError("node host died")
            self.buf += d
        line, _, self.buf = self.buf.partition(b"\n")
        return json.loads(line)

    def new(self, code, version=None):
        self.next += 1
        i = self.next
        return i, self.call(op="new", id=i, code=code, version=version)

    def data(self, i, b):
        return self.call(op="data", id=i, b=base64.b64encode(b).decode())

    def end(self, i):
        return self.call(op="end", id=i)

    def ref(self, code, ctx=None):
        return self.call(op="ref", code=code, **({} if ctx is None else {"ctx": ctx}))

    def reset(self):
        self.call(op="reset")

    def close(self):
        try:
            procs.o_close(self.w)
            procs.o_close(self.r)
        except OSError:
            pass


_host = None


def host():
    global _host
    if _host is None:
        _host = NodeHost()
    return _host


def node_engine(sim, proc, code, version=None):
    """Program of a simulated `node --eval CODE`."""
    h = host()
    i, r = h.new(code, version)
    proc.meta["evals"] = 0
    yield from _deliver(sim, proc, r)
    if not r["listening"]:
        yield ("exit", 0)
    while True:
        b = yield ("read",)
        proc.meta["asked_at"] = sim.now
        proc.meta["in_bytes"] = proc.meta.get("in_bytes", 0) + len(b)
        r = h.data(i, b) if b else h.end(i)
        yield from _deliver(sim, proc, r)
        if not b:
            yield ("exit", 0)


def _deliver(sim, proc, r):
    proc.meta["evals"] = proc.meta.get("evals", 0) + r["evals"]
    if r["cost"]:
        yield ("sleep", r["cost"])
    for fd, b in r["out"]:
        yield ("write", fd, base64.b64decode(b))
    if r["out"]:
        proc.meta["answered_at"] = sim.now
    if r["hang"]:
        sim.fired("script-hang")
        proc.meta["hung"] = True
        yield ("hang",)
    if r["exit"] is not None:
        yield ("exit", r["exit"])

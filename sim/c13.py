"""C13: reading file contents under the 64 KiB limit, over streams that split, stall and fail."""
import io

from . import core
from .base import Check, Result, list_shrinks
from .state import ModuleState

LIMIT = 64 * 1024
PIECES = [b"a", b"\n", b"\r\n", b"\x00", "\u00e9".encode(), "\u20ac".encode(), "\U0001f600".encode(), b"line of text\n", b"0123456789abcdef" * 64]
BAD = [b"\xff", b"\xc3(", b"\xe2\x82"]


def make_data(d):
    """Deterministic data of exactly d['n'] bytes."""
    import random
    r = random.Random(d["s"])
    out = bytearray()
    pad = d.get("pad", 0)
    out += b"x" * min(pad, d["n"])
    if d["kind"] == "ascii":
        blk = bytes(r.randrange(32, 127) for _ in range(97))
        while len(out) < d["n"]:
            out += blk
    else:
        pool = PIECES if d["kind"] == "text" else PIECES + BAD
        while len(out) < d["n"]:
            out += r.choice(pool)
            if len(out) < d["n"] - 4096:
                out += r.choice(pool) * r.choice([1, 1, 7, 64])
    return bytes(out[:d["n"]])


class Raw:
    """A stream the simulator controls: how much each read gives, when it stalls and when it fails."""
    def __init__(self, sim, data, s):
        self.sim, self.data, self.s = sim, data, s
        self.pos = 0
        self.reads = 0
        self.closed = False
        self.asked = 0

    def read(self, n=-1):
        sim = self.sim
        sim.point("stream-read")
        k = self.reads
        self.reads += 1
        f = self.s.get("fault")
        if f and f["at"] == k:
            sim.fired("read-" + f["k"])
            if f["k"] == "error":
                raise OSError(f["errno"], "injected")
            if f["k"] == "interrupt":
                raise KeyboardInterrupt
            if f["k"] == "value":
                raise ValueError("I/O operation on closed file")
            sim.sleep(f.get("d", 5.0))
        left = len(self.data) - self.pos
        want = left if n is None or n < 0 else min(n, left)
        self.asked += want
        m = self.s["mode"]
        if want > 1 and m != "full":
            if m == "byte":
                # one byte at a time near interesting places, larger steps elsewhere
                want = 1 if k < 40 or abs(self.pos - LIMIT) < 40 or left < 40 else min(want, max(1, min(4096, abs(LIMIT - self.pos) - 20)))
            elif m == "chunk":
                want = min(want, self.s["chunk"])
            elif m == "rand" and sim.flip("short", 0.7):
                want = 1 + sim.choose("len", want) if sim.flip("any", 0.5) else min(want, 1 + sim.choose("small", 3) + (8192 if sim.flip("blk", 0.8) else 0))
            if want < min(left, n if n is not None and n >= 0 else left):
                sim.fired("short-read")
        b = self.data[self.pos:self.pos + want]
        self.pos += len(b)
        return b

    read1 = read

    def readinto(self, buf):
        b = self.read(len(buf))
        buf[:len(b)] = b
        return len(b)

    def readable(self):
        return True

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return self

    def __next__(self):
        b = self.read(1024)
        if not b:
            raise StopIteration
        return b


class RawIO(io.RawIOBase):
    def __init__(self, raw):
        self.raw_ = raw

    def readable(self):
        return True

    def readinto(self, buf):
        return self.raw_.readinto(buf)


class C13(Check):
    id = "C13"
    lines = True

    def setup(self):
        from cwl_utils import errors
        from cwl_utils.parser import cwl_v1_0_utils as a, cwl_v1_1_utils as b, cwl_v1_2_utils as c
        self.mods = {"v1.0": a, "v1.1": b, "v1.2": c}
        self.state = ModuleState(a, b, c)
        self.WE = errors.WorkflowException

    def gen(self, rng, tier):
        threads = []
        for t in range(rng.choices([1, 2, 3], [5, 2, 1])[0]):
            ops = []
            for _ in range(rng.randint(1, 4)):
                n = rng.choice([0, 1, 2, 3, 100, 8191, 8192, 8193, 16384, 65535, LIMIT - 2, LIMIT - 1, LIMIT, LIMIT, LIMIT + 1, LIMIT + 1, LIMIT + 2, LIMIT + 5, 70000, 131072, 131073, 200000,
                                rng.randrange(70000), rng.randrange(LIMIT - 8, LIMIT + 8)])
                op = {"ver": rng.choice(["v1.0", "v1.1", "v1.2"]), "fn": rng.choice(["bytes", "text", "text"]),
                      "data": {"n": n, "kind": rng.choice(["ascii", "text", "text", "bad"]), "s": rng.randrange(10 ** 6), "pad": rng.choice([0, 0, 1, 2, 3])},
                      "mode": rng.choice(["full", "byte", "chunk", "rand", "rand"]), "chunk": rng.choice([1000, 4096, 8192, 32768, 65535, 65536, 65537, 7, 1]), "wrap": rng.choice([0, 0, 0, 1])}
                if op["chunk"] < 1000 and n > 3000:
                    op["chunk"] = 16384
                if rng.random() < 0.3:
                    op["fault"] = rng.choice([{"k": "error", "errno": rng.choice([4, 5, 5, 11, 116])}, {"k": "interrupt"}, {"k": "value"}, {"k": "stall", "d": 30.0}])
                    op["fault"]["at"] = rng.choice([0, 0, 1, 1, 2, 3, 5])
                ops.append(op)
            threads.append(ops)
        return {"threads": threads, "cfg": {"p_fast": rng.choice([1.0, 0.8]), "p_line": rng.choice([0, 0.1])}}

    def execute(self, scen, seed, replay=None, log=False):
        sim = core.Sim(seed, replay, dict(scen["cfg"], log=log, max_points=60000))
        self.state.restore()
        res = Result()
        done = []

        def thread(ops):
            for op in ops:
                raw = Raw(sim, make_data(op["data"]), op)
                f = io.BufferedReader(RawIO(raw), 8192) if op["wrap"] else raw
                m = self.mods[op["ver"]]
                rec = {"op": op, "raw": raw}
                try:
                    if op["fn"] == "bytes":
                        rec["v"] = m.content_limit_respected_read_bytes(f)
                    else:
                        rec["v"] = m.content_limit_respected_read(f)
                    rec["out"] = "ok"
                except core.SimExit:
                    raise
                except BaseException as e:
                    rec["out"], rec["e"] = type(e).__name__, e
                    rec["we"] = isinstance(e, self.WE)
                rec["hit"] = raw.reads > op["fault"]["at"] if op.get("fault") else False
                sim.trace("read", rec["out"], len(rec.get("v", "")), raw.reads)
                done.append(rec)
        sim.run([("T%d" % i, lambda o=o: thread(o)) for i, o in enumerate(scen["threads"])])
        if sim.abort_reason not in (None, "drivers-done"):
            if sim.abort_reason == "deadlock":
                res.violate("never-ends", "deadlock")
            else:
                res.inconclusive = sim.abort_reason
        for r in done:
            self.judge(r, res)
        res.take(sim)
        res.ops = len(done)
        return res

    def judge(self, r, res):
        op, data = r["op"], r["raw"].data
        what = "%s %s of %d bytes (%s, chunk %s, fault %s, %d reads)" % (op["ver"], op["fn"], len(data), op["mode"], op["chunk"], op.get("fault"), r["raw"].reads)
        res.probes[r["out"]] = res.probes.get(r["out"], 0) + 1
        f = op.get("fault")
        failed = r["hit"] and f["k"] in ("error", "interrupt", "value")
        if failed and f["k"] == "error" and f["errno"] == 4 and r["out"] == "ok":
            failed = False       # retrying an interrupted read is right
        if failed:
            if r["out"] == "ok":
                # data read completely before the failing call could not have been needed
                res.violate("error-hidden", what + ": returned %d although a read failed" % len(r["v"]))
            return
        limit_raise = op["ver"] == "v1.2"
        if len(data) > LIMIT and limit_raise:
            if not r.get("we"):
                res.violate("limit-ignored", what + ": %s" % r["out"])
            return
        want = data[:LIMIT]
        if op["fn"] == "text":
            try:
                want = want.decode("utf-8")
            except UnicodeDecodeError:
                if r["out"] == "ok":
                    res.violate("bad-decoding", what + ": undecodable bytes gave a text of %d characters" % len(r["v"]))
                return
        if r["out"] != "ok":
            res.violate("fails", what + ": %s %s" % (r["out"], str(r.get("e"))[:100]))
        elif r["v"] != want:
            res.violate("incomplete" if want[:len(r["v"])] == r["v"] else "wrong", what + ": got %d of %d" % (len(r["v"]), len(want)))

    def shrinks(self, scen):
        for l in list_shrinks(scen["threads"]):
            if l:
                yield dict(scen, threads=l)
        for i, ops in enumerate(scen["threads"]):
            def put(x):
                return dict(scen, threads=scen["threads"][:i] + [x] + scen["threads"][i + 1:])
            for l in list_shrinks(ops):
                if l:
                    yield put(l)
            for k, op in enumerate(ops):
                for ch in ({"fault": None}, {"wrap": 0}, {"mode": "full"}, {"mode": "chunk"}):
                    n = dict(op, **ch)
                    if n.get("fault") is None:
                        n.pop("fault", None)
                    if n != op:
                        yield put(ops[:k] + [n] + ops[k + 1:])
                for sz in (0, 1, 2, op["data"]["n"] // 2):
                    if sz < op["data"]["n"]:
                        yield put(ops[:k] + [dict(op, data=dict(op["data"], n=sz))] + ops[k + 1:])

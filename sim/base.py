"""Common shape of checks: generate -> execute -> violations; shrinking; results."""
import hashlib
import json
import random

from . import core


class Result:
    def __init__(self):
        self.violations = []     # dicts: cls, msg, sig
        self.inconclusive = None
        self.stats = {}
        self.probes = {}
        self.thash = 0
        self.shash = 0
        self.sim_time = 0.0
        self.points = 0
        self.switches = 0
        self.ops = 0
        self.choices = {}
        self.log = None
        self.nontrivial = True
        self.key = None          # distinctness key
        self.errors = []

    def violate(self, cls, msg, sig=""):
        self.violations.append({"cls": cls, "msg": str(msg)[:1500], "sig": sig})

    def take(self, sim):
        self.stats = dict(sim.stats)
        self.probes.update(sim.probes)
        self.thash = sim.thash
        self.shash = sim.switch_hash
        self.sim_time = sim.now - sim.t0
        self.points = sim.points
        self.switches = sim.switches
        self.choices = sim.rec
        self.log = sim.log
        self.errors = list(sim.errors)


class Check:
    id = "?"
    quick = 1000
    thorough = 10000
    rule = ""
    real = []
    stub = []
    assumptions = []
    technique = "deterministic simulation with fault injection (seeded schedule and fault search)"
    warmups = 6
    lines = False      # line-level preemption on

    def gen(self, rng, tier):
        raise NotImplementedError

    def execute(self, scen, seed, replay=None, log=False):
        raise NotImplementedError

    def shrinks(self, scen):
        """Yield smaller scenarios."""
        return iter(())

    def setup(self):
        pass


def rng_for(vseed, cid, i):
    h = hashlib.sha256(("%s/%s/%s" % (vseed, cid, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big")), int.from_bytes(h[8:14], "big")


def jd(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=True)


def strict_eq(a, b):
    """JSON equality that tells bool/int/float and key order-insensitively apart."""
    if type(a) is not type(b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
            return a == b and isinstance(a, int) == isinstance(b, int)
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(strict_eq(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(strict_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    return a == b


def list_shrinks(lst):
    """Smaller versions of a list: big chunks first, then single elements."""
    n = len(lst)
    if n == 0:
        return
    if n > 1:
        yield []
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            yield lst[:i] + lst[i + k:]
        k //= 2

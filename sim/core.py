"""Simulation kernel: real threads parked and released one at a time, virtual clock, recorded choices.

Must be imported (and `install()`ed) before anything that creates locks or threads of interest.
Nothing here draws from the PRNG or reads a real clock except through Sim.choose / the watchdog.
"""
import _thread
import gc
import heapq
import os
import random
import select as _select_mod
import sys
import threading
import time as _time_mod
import traceback
import zlib

# ---- originals -----------------------------------------------------------------------------------
o_allocate = _thread.allocate_lock
o_start_new_thread = _thread.start_new_thread
o_get_ident = _thread.get_ident
o_monotonic = _time_mod.monotonic
o_time = _time_mod.time
o_sleep = _time_mod.sleep
o_perf = _time_mod.perf_counter

INF = float("inf")


class SimExit(BaseException):
    """Raised in simulated threads to unwind them when a run is over."""


class HarnessError(Exception):
    """The simulator or a scenario is broken; never a verdict about the code."""


CUR = None  # the active Sim, or None


class SThread:
    __slots__ = ("id", "name", "baton", "state", "cond", "deadline", "ready_at", "sentinel", "done",
                 "ident", "noprog", "interruptible", "ki_at", "stalled", "daemon", "tag", "linecount",
                 "masked", "opdata", "loop_policy", "slices", "parent", "ki_exc")

    def __init__(self, id, name):
        self.id = id
        self.name = name
        self.baton = o_allocate()
        self.baton.acquire()
        self.state = "new"
        self.cond = None
        self.deadline = None
        self.ready_at = 0.0
        self.sentinel = None
        self.done = False
        self.ident = None
        self.noprog = 0
        self.ki_exc = None
        self.ki_at = None      # countdown of interruptible points to a KeyboardInterrupt
        self.stalled = 0.0     # total injected stall
        self.tag = ""
        self.linecount = 0
        self.parent = None
        self.slices = 0
        self.masked = 0
        self.opdata = None
        self.loop_policy = None


class Sim:
    """One run.  Every nondeterministic decision goes through choose()."""

    def __init__(self, seed, replay=None, cfg=None):
        self.seed = seed
        self.cfg = cfg or {}
        self.rng = random.Random(seed)
        self.replay = replay          # dict stream -> list of ints, or None
        self.rec = {}                 # recorded choices
        self.pos = {}
        self.now = float(self.cfg.get("t0", 1000.0))
        self.t0 = self.now
        self.wall_offset = 1.7e9
        self.seq = 0
        self.events = []
        self.threads = []
        self.current = None
        self.kernel = 0
        self.aborting = False
        self.abort_reason = None
        self.points = 0
        self.max_points = self.cfg.get("max_points", 60000)
        self.max_time = self.cfg.get("max_time", 4000.0)
        self.thash = 0
        self.log = [] if self.cfg.get("log") else None
        self.stats = {}               # fault kind -> fired
        self.probes = {}
        self.ctl = o_allocate()
        self.ctl.acquire()
        self.line_gap = 0             # lines to the next preemption; 0 = off
        self.lines = 0
        self.max_stall = self.cfg.get("max_stall", 3.0)
        self.total_stall = 0.0
        self.total_lat = 0.0
        self.max_lines = self.cfg.get("max_lines", 3_000_000)
        self.p_switch = self.cfg.get("p_switch", 0.1)
        self.p_stall = self.cfg.get("p_stall", 0.0)
        self.mean_gap = self.cfg.get("mean_gap", 0)
        self.errors = []              # harness-level problems
        self.ended = False
        self.switches = 0
        self.thread_errors = []
        self.switch_hash = 0
        self.hooks_on_end = []
        self.next_fd = 1_000_000
        self.next_pid = 5_000_000
        self.fds = {}
        self.procs = {}
        self.mutexes = 0
        self.fs = None
        self.step_hook = None
        self.world = None
        self.p_split = self.cfg.get("p_split", 0.0)
        self.p_fast = self.cfg.get("p_fast", 0.9)
        self.net = None
        self.ent = random.Random(seed ^ 0x5EED)      # simulated entropy source

    # ---- choices ---------------------------------------------------------------------------------
    def choose(self, stream, n, p0=None):
        """A choice 0..n-1; 0 is the plain one.  p0 = probability of 0 when generating."""
        if n <= 1:
            return 0
        if self.replay is not None:
            lst = self.replay.get(stream)
            i = self.pos.get(stream, 0)
            self.pos[stream] = i + 1
            v = lst[i] if lst is not None and i < len(lst) else 0
            if v >= n:
                v = n - 1
        else:
            r = self.rng
            if p0 is not None:
                v = 0 if r.random() < p0 else 1 + int(r.random() * (n - 1))
            else:
                v = int(r.random() * n)
        self.rec.setdefault(stream, []).append(v)
        return v

    def flip(self, stream, p):
        return self.choose(stream, 2, 1.0 - p) == 1

    def pick(self, stream, options, p0=None):
        return options[self.choose(stream, len(options), p0)]

    def fired(self, kind, n=1):
        self.stats[kind] = self.stats.get(kind, 0) + n

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    # ---- trace -----------------------------------------------------------------------------------
    def trace(self, *what):
        s = "%s|%.7f|%s" % (self.current.id if self.current else "-", self.now - self.t0,
                            " ".join(map(str, what)))
        self.thash = zlib.crc32(s.encode("utf-8", "backslashreplace"), self.thash)
        if self.log is not None:
            self.log.append(s)

    # ---- events ----------------------------------------------------------------------------------
    def at(self, delay, fn, *args):
        self.seq += 1
        ev = [self.now + delay, self.seq, fn, args]
        heapq.heappush(self.events, ev)
        return ev

    def cancel(self, ev):
        ev[2] = None

    def _fire_due(self):
        ev = self.events
        while ev and ev[0][0] <= self.now:
            e = heapq.heappop(ev)
            if e[2] is not None:
                self.kernel += 1
                try:
                    e[2](*e[3])
                finally:
                    self.kernel -= 1

    # ---- threads ---------------------------------------------------------------------------------
    def spawn(self, fn, args=(), kwargs=None, name=None, sentinel=None):
        st = SThread(len(self.threads), name or "t%d" % len(self.threads))
        st.sentinel = sentinel
        st.parent = self.current
        st.state = "ready"
        st.ready_at = self.now
        self.threads.append(st)

        def boot():
            st.baton.acquire()
            st.ident = o_get_ident()
            BY_IDENT[st.ident] = st
            threading._active.pop(st.ident, None)   # thread ids are reused by the system
            try:
                if not self.aborting:
                    fn(*args, **(kwargs or {}))
            except SimExit:
                pass
            except BaseException as e:  # threading's own bootstrap catches normal ones
                if not self.aborting:
                    self.errors.append("thread %s died: %s" % (st.name, "".join(
                    traceback.format_exception(type(e), e, e.__traceback__))[-1500:]))
            finally:
                try:
                    self._thread_exit(st)
                except BaseException:
                    self.errors.append("thread exit: " + traceback.format_exc()[-1500:])
                    self._finish()

        o_start_new_thread(boot, ())
        return st

    def _thread_exit(self, st):
        self.kernel += 1
        st.done = True
        st.state = "done"
        BY_IDENT.pop(st.ident, None)
        if st.sentinel is not None:
            st.sentinel._owner = None
            st.sentinel._locked = False
        self.trace("exit")
        self.kernel -= 1
        if self.ended:
            return
        nxt = self._pick_next(None)
        if nxt is None:
            self._finish()
        else:
            self.kernel = 0
            self._hand(nxt)

    def _hand(self, st):
        self.current = st
        st.state = "running"
        st.baton.release()

    def _finish(self):
        if not self.ended:
            self.ended = True
            self.current = None
            self.ctl.release()

    def _runnable(self):
        out = []
        now = self.now
        for t in self.threads:
            if t.done:
                continue
            if t.state == "ready":
                if t.ready_at <= now:
                    out.append(t)
            elif t.state == "blocked":
                if (t.ready_at <= now and t.cond is not None and t.cond()) or (
                        t.deadline is not None and t.deadline <= now):
                    out.append(t)
        return out

    def _pick_next(self, cur):
        """Pick a thread to run; cur is runnable already if not None (choice 0)."""
        guard = 0
        while True:
            alive = [t for t in self.threads if not t.done]
            if not alive:
                return None
            if self.aborting:
                # unwind one thread at a time, in order
                return alive[0] if cur is None else cur
            cands = self._runnable()
            if cur is not None:
                if cur in cands:
                    cands.remove(cur)
                cands.insert(0, cur)
            if cands:
                if len(cands) == 1:
                    return cands[0]
                if cur is not None:
                    # a thread that only polls does not keep the others from running
                    k = self.choose("sched", len(cands), 0.2 if cur.noprog >= 8 else 1.0 - self.p_switch)
                else:
                    k = self.choose("sched", len(cands), 0.5)
                return cands[k]
            # nobody can run: jump the clock
            nt = INF
            while self.events and self.events[0][2] is None:
                heapq.heappop(self.events)
            if self.events:
                nt = self.events[0][0]
            for t in alive:
                if t.state == "ready":
                    nt = min(nt, t.ready_at)
                elif t.state == "blocked":
                    if t.deadline is not None:
                        nt = min(nt, t.deadline)
                    if t.ready_at > self.now:
                        nt = min(nt, t.ready_at)
            # only daemon threads left without driver threads: the run is over
            if not any(t.opdata is not None for t in alive):
                self.abort("drivers-done")
                continue
            if nt == INF:
                self.abort("deadlock")
                continue
            if nt - self.t0 > self.max_time:
                self.abort("timecap")
                continue
            if nt > self.now:
                self.now = nt
            self._fire_due()
            guard += 1
            if guard > 200000:
                self.abort("eventcap")

    def abort(self, reason):
        if not self.aborting:
            self.aborting = True
            self.abort_reason = reason
            self.where = [(t.name, t.state, t.tag) for t in self.threads if not t.done]

    def _switch(self, cur):
        nxt = self._pick_next(cur if cur.state == "ready" and cur.ready_at <= self.now else None)
        if nxt is None:
            raise HarnessError("nothing to run")
        if nxt is cur:
            cur.state = "running"
            self.current = cur
            return
        self._park(cur, nxt, 0)

    def _park(self, cur, nxt, line):
        self.switches += 1
        self.switch_hash = zlib.crc32(b"%d,%d,%d;" % (nxt.id, self.points, line), self.switch_hash)
        self.kernel = 0
        self._hand(nxt)
        cur.baton.acquire()
        self.kernel = 1

    # called by simulated threads ----------------------------------------------------------------
    def me(self):
        return self.current

    def point(self, tag, cost=2e-6, progress=True, intr=False):
        """A place where time passes, events fire and another thread may run."""
        cur = self.current
        if self.aborting:
            raise SimExit()
        self.kernel += 1
        try:
            self.points += 1
            if progress:
                cur.noprog = 0
            elif progress is not None:
                cur.noprog += 1
                k = cur.noprog // 8
                if k:
                    # a polling loop: let time run faster, but never past the next thing to happen
                    fast = cost * (1 << min(k, 14))
                    ev = self.events
                    while ev and ev[0][2] is None:
                        heapq.heappop(ev)
                    nt = ev[0][0] if ev else INF
                    for t in self.threads:
                        if t is not cur and not t.done:
                            if t.noprog < 16 and t.ready_at <= self.now and (t.state == "ready" or t.cond is not None and t.cond()):
                                fast = cost     # somebody else has real work to do
                            if t.deadline is not None and t.state == "blocked":
                                nt = min(nt, t.deadline)
                            if t.ready_at > self.now:
                                nt = min(nt, t.ready_at)
                    cost = max(cost, min(fast, nt - self.now))
            if self.points > self.max_points:
                self.abort("stepcap")
                raise SimExit()
            self.now += cost
            if self.now - self.t0 > self.max_time:
                self.abort("timecap")
                raise SimExit()
            self._fire_due()
            self.trace(tag)
            cur.tag = tag
            cur.state = "ready"
            cur.ready_at = self.now
            if self.p_stall and self.total_stall < self.max_stall:
                s = self.choose("stall", 5, 1.0 - self.p_stall)
                if s:
                    d = (0.0, 0.0005, 0.02, 0.3, 1.0)[s]
                    d = min(d, self.max_stall - self.total_stall)
                    self.total_stall += d
                    cur.ready_at = self.now + d
                    self.fired("thread-stall")
            self._switch(cur)
        finally:
            self.kernel -= 1
        if self.aborting:
            raise SimExit()
        if intr:
            self._maybe_interrupt(cur)

    def _maybe_interrupt(self, cur):
        if cur.ki_at is not None and not cur.masked:
            cur.ki_at -= 1
            if cur.ki_at < 0:
                cur.ki_at = None
                exc = cur.ki_exc
                if exc is not None:
                    cur.ki_exc = None
                    exc()                   # raises
                self.fired("keyboard-interrupt")
                self.trace("KeyboardInterrupt")
                raise KeyboardInterrupt()

    def block(self, cond, timeout=None, tag="block", intr=False, latency=0.0):
        """Wait until cond() or timeout (seconds).  Returns True if cond held at wake-up."""
        cur = self.current
        if self.aborting:
            raise SimExit()
        if intr:
            self._maybe_interrupt(cur)
        self.kernel += 1
        try:
            self.points += 1
            if self.points > self.max_points:
                self.abort("stepcap")
                raise SimExit()
            self.trace(tag, "wait", timeout)
            self.now += 1e-6
            self._fire_due()
            cur.tag = tag
            cur.state = "blocked"
            cur.cond = cond
            cur.ready_at = self.now
            cur.deadline = None if timeout is None else self.now + max(0.0, timeout)
            self._switch(cur)
            cur.cond = None
            cur.deadline = None
            if self.aborting:
                raise SimExit()
            ok = bool(cond())
            self.trace(tag, "woke", ok)
        finally:
            self.kernel -= 1
        if intr:
            self._maybe_interrupt(cur)
        return ok

    def sleep(self, dt):
        if self.aborting:
            raise SimExit()
        self.block(lambda: False, max(0.0, dt), "sleep", intr=True)

    # ---- line preemption -------------------------------------------------------------------------
    def next_gap(self):
        if not self.mean_gap:
            return 0
        # bucketed so that replay vectors stay small integers; 0 = no further preemption
        if self.replay is not None:
            return self.choose("gap", 1 << 30)
        v = 1 + int(self.rng.expovariate(1.0 / self.mean_gap))
        self.rec.setdefault("gap", []).append(v)
        return v

    def on_line(self, code, line):
        self.lines += 1
        if self.lines > self.max_lines:
            self.abort("linecap")
            raise SimExit()
        cur = self.current
        cur.linecount += 1
        if cur.linecount >= 5000:
            # time passes while code computes; a thread that only computes is preempted eventually
            cur.linecount = 0
            self.kernel += 1
            try:
                self.now += 0.002
                self._fire_due()
                others = [t for t in self._runnable() if t is not cur]
                if others:
                    cur.state = "ready"
                    cur.ready_at = self.now
                    cur.slices += 1
                    if cur.slices > 40:
                        cur.slices = 0
                        self._park(cur, others[0], -1)
                    else:
                        self._switch(cur)
            finally:
                self.kernel -= 1
        if self.line_gap:
            self.line_gap -= 1
            if self.line_gap == 0:
                self.line_gap = self.next_gap()
                cur.state = "ready"
                self.kernel += 1
                try:
                    self.now += 1e-6
                    self._fire_due()
                    self.trace("line", code.co_name, line)
                    cur.tag = "%s:%d" % (code.co_name, line)
                    cur.ready_at = self.now
                    if self.total_stall < self.max_stall and self.p_stall:
                        s = self.choose("lstall", 4, 0.7)
                        if s:
                            d = min((0.0, 0.01, 0.2, 1.0)[s], self.max_stall - self.total_stall)
                            self.total_stall += d
                            cur.ready_at = self.now + d
                            self.fired("thread-stall")
                    # force another thread if there is one
                    c = self._runnable()
                    others = [t for t in c if t is not cur]
                    if others and cur.ready_at <= self.now:
                        k = self.choose("psched", len(others) + 1, 0.2)
                        if k:
                            nxt = others[k - 1]
                            self._park(cur, nxt, line)
                        else:
                            cur.state = "running"
                    elif cur.ready_at > self.now:
                        self._switch(cur)
                    else:
                        cur.state = "running"
                finally:
                    self.kernel -= 1
                if self.aborting:
                    raise SimExit()
        if self.aborting:
            raise SimExit()

    # ---- running ---------------------------------------------------------------------------------
    def run(self, mains, watchdog=120.0):
        """mains: list of (name, fn).  Runs them as driver threads to completion."""
        global CUR
        if CUR is not None:
            raise HarnessError("nested simulation")
        gc.collect()      # finalizers of earlier runs must not run inside this one
        CUR = self
        try:
            for name, fn in mains:
                st = self.spawn(fn, name=name)
                st.opdata = {}
            self.line_gap = self.next_gap()
            nxt = self._pick_next(None)
            self._hand(nxt)
            if not self.ctl.acquire(True, watchdog):
                sys.stderr.write("WATCHDOG: simulated run stuck in real time; seed=%r\n" % (self.seed,))
                try:
                    sys.stderr.write(repr([(t.name, t.state, t.tag) for t in self.threads if not t.done]) + "\n")
                    for ident, fr in sys._current_frames().items():
                        sys.stderr.write("".join(traceback.format_stack(fr)[-8:]) + "\n")
                    sys.stderr.flush()
                finally:
                    os._exit(71)
        finally:
            self.sim_time = self.now - self.t0
            self.kernel += 1
            if self.fs is not None:
                self.fs.fds = {}
            CUR = None
            self.kernel -= 1
            for h in self.hooks_on_end:
                h()
            BY_IDENT.clear()


BY_IDENT = {}


def in_sim():
    s = CUR
    return s is not None and s.current is not None and not s.kernel and s.current.ident == o_get_ident()


# ---- locks ---------------------------------------------------------------------------------------
class SimLock:
    """Replacement of _thread.lock; behaves as a real lock would under the simulated scheduler."""
    __slots__ = ("_locked", "_owner", "__weakref__")

    def __init__(self):
        self._locked = False
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        if in_sim():
            s = CUR
            if s.aborting:
                if not self._locked:
                    self._locked = True
                    return True
                raise SimExit()
            s.point("lock.acquire", cost=2e-7, progress=None)
            if s.log is not None and os.environ.get("SIM_LOCKTB"):
                f = sys._getframe(1)
                w = []
                while f is not None and len(w) < 6:
                    w.append("%s:%d" % (f.f_code.co_name, f.f_lineno))
                    f = f.f_back
                s.log.append("   lockedby " + " ".join(w))
            if not self._locked:
                self._locked = True
                return True
            if not blocking:
                return False
            to = None if timeout is None or timeout < 0 else timeout
            intr = True
            if s.block(lambda: not self._locked, to, "lock", intr=intr):
                self._locked = True
                return True
            return False
        if not self._locked:
            self._locked = True
            return True
        if not blocking or (timeout is not None and timeout >= 0):
            return False
        if CUR is None or CUR.ended:
            raise SimExit()
        raise HarnessError("lock acquired outside the simulation would block")

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _at_fork_reinit(self):
        self._locked = False

    def __repr__(self):
        return "<SimLock>"


def _sim_set_sentinel():
    if in_sim():
        l = SimLock()
        CUR.current.sentinel = l
        return l
    return _o_set_sentinel()


_o_set_sentinel = _thread._set_sentinel


def _sim_start_new_thread(function, args, kwargs={}):
    if in_sim():
        s = CUR
        st = s.spawn(function, args, kwargs, name="thr")
        s.fired("thread-start")
        s.point("start_thread")
        return 10_000_000 + st.id
    return o_start_new_thread(function, args, kwargs)


# ---- time ----------------------------------------------------------------------------------------
def _monotonic():
    s = CUR
    if s is not None:
        return s.now
    return o_monotonic()


def _walltime():
    s = CUR
    if s is not None:
        return s.now + s.wall_offset
    return o_time()


def _sleep(dt):
    if in_sim():
        CUR.sleep(dt)
    elif CUR is None:
        o_sleep(dt)


def _urandom(n):
    s = CUR
    if s is not None:
        return s.ent.randbytes(n)
    return _o_urandom(n)


_o_urandom = os.urandom


class _Names:
    """tempfile's candidate names, from the simulated entropy."""

    def __iter__(self):
        return self

    def __next__(self):
        s = CUR
        r = s.ent if s is not None else random
        return "".join(r.choice("abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(8))


def _install_entropy():
    import tempfile
    import uuid
    os.urandom = _urandom
    tempfile._get_candidate_names = _Names
    tempfile._name_sequence = _Names()
    tempfile._RandomNameSequence = _Names
    uuid.uuid4 = lambda: uuid.UUID(bytes=_urandom(16), version=4)


def _install_time():
    t = _time_mod
    t.monotonic = _monotonic
    t.perf_counter = _monotonic
    t.time = _walltime
    t.sleep = _sleep
    t.monotonic_ns = lambda: int(_monotonic() * 1e9)
    t.perf_counter_ns = t.monotonic_ns
    t.time_ns = lambda: int(_walltime() * 1e9)


_TOOL = 4
_installed = False
_target_files = {}
LINE_TARGETS = ["/cwl_utils/"]     # checks may add parts of libraries whose objects the code under test shares


def _is_target(code):
    fn = code.co_filename
    r = _target_files.get(fn)
    if r is None:
        r = any(x in fn for x in LINE_TARGETS) and "/tests/" not in fn
        _target_files[fn] = r
    return r


def _line_cb(code, line):
    if not _is_target(code):
        # threading.Timer.run and Event code are interesting too
        if code.co_filename.endswith("threading.py") and code.co_name == "run":
            pass
        else:
            return sys.monitoring.DISABLE
    s = CUR
    if s is None or s.kernel or s.current is None or s.current.ident != o_get_ident():
        return
    s.on_line(code, line)


def _excepthook(args):
    s = CUR
    if isinstance(args.exc_value, SimExit):
        return
    if s is not None:
        s.thread_errors.append("".join(traceback.format_exception(args.exc_type, args.exc_value, args.exc_traceback))[-1200:])


def _unraisable(args):
    s = CUR
    if isinstance(args.exc_value, SimExit) or s is None:
        return
    s.thread_errors.append("unraisable: " + "".join(traceback.format_exception(
        args.exc_type, args.exc_value, args.exc_traceback))[-1200:])


def install():
    """Patch the seams.  Idempotent; call first thing in a worker process."""
    global _installed
    if _installed:
        return
    _installed = True
    import gc
    gc.disable()
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading._CRLock = None
    threading.RLock = threading._PyRLock if hasattr(threading, "_PyRLock") else threading.RLock
    threading._start_new_thread = _sim_start_new_thread
    threading._set_sentinel = _sim_set_sentinel
    threading._time = _monotonic
    threading.excepthook = _excepthook
    sys.unraisablehook = _unraisable
    _thread.start_new_thread = _sim_start_new_thread
    _thread.allocate_lock = SimLock
    _install_time()
    _install_entropy()
    import queue
    queue.SimpleQueue = queue._PySimpleQueue
    queue.time = _monotonic
    import selectors
    selectors.DefaultSelector = selectors.SelectSelector
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "sim")
    mon.register_callback(_TOOL, mon.events.LINE, _line_cb)


_lines_on = False


def lines(on):
    global _lines_on
    if on != _lines_on:
        sys.monitoring.set_events(_TOOL, sys.monitoring.events.LINE if on else 0)
        _lines_on = on

"""Simulated pipes, file descriptors, child processes; patched subprocess/os/select/io seams."""
import _io
import builtins
import errno
import io
import os
import select
import selectors
import subprocess
import sys

from . import core
from .core import SimExit, HarnessError, in_sim

FD0 = 1_000_000
PIPE_BUF = select.PIPE_BUF

o_read, o_write, o_close, o_kill, o_waitpid = os.read, os.write, os.close, os.kill, os.waitpid
o_set_blocking, o_get_blocking, o_select = os.set_blocking, os.get_blocking, select.select
o_io_open = io.open
o_fstat, o_isatty, o_pipe = os.fstat, os.isatty, os.pipe
RealPopen = subprocess.Popen


def S():
    return core.CUR


class SimPipe:
    def __init__(self, sim, cap=65536):
        self.sim = sim
        self.buf = bytearray()
        self.cap = cap
        self.r_open = 0
        self.w_open = 0
        self.on_data = None     # callback(pipe): child side reader
        self.on_space = None    # callback(pipe): child side writer
        self.on_wclose = None
        self.total = 0


class FD:
    __slots__ = ("pipe", "mode", "blocking", "num", "closed")

    def __init__(self, pipe, mode, num):
        self.pipe = pipe
        self.mode = mode
        self.blocking = True
        self.num = num
        self.closed = False


def new_fd(pipe, mode):
    s = pipe.sim
    n = s.next_fd
    s.next_fd += 1
    s.fds[n] = FD(pipe, mode, n)
    if mode == "r":
        pipe.r_open += 1
    else:
        pipe.w_open += 1
    return n


def lookup(fd):
    s = S()
    f = s.fds.get(fd) if s is not None else None
    if f is None or f.closed:
        raise OSError(errno.EBADF, "Bad file descriptor")
    return f


def readable(f):
    p = f.pipe
    return bool(p.buf) or p.w_open == 0


def writable(f):
    p = f.pipe
    return p.r_open == 0 or p.cap - len(p.buf) >= PIPE_BUF


def fd_read(fd, n):
    f = lookup(fd)
    s = S()
    if f.mode != "r":
        raise OSError(errno.EBADF, "Bad file descriptor")
    if in_sim():
        s.point("read", progress=None, intr=True)
        if not readable(f):
            if not f.blocking:
                raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
            s.block(lambda: f.closed or readable(f), None, "read", intr=True)
    if f.closed:
        raise OSError(errno.EBADF, "Bad file descriptor")
    p = f.pipe
    if not p.buf:
        if in_sim():
            s.point("read-eof", progress=False)
        return b""
    data = bytes(p.buf[:n])
    del p.buf[:n]
    s.current and setattr(s.current, "noprog", 0)
    s.trace("read", fd - FD0, len(data))
    if p.on_space:
        p.on_space(p)
    return data


def fd_write(fd, data):
    f = lookup(fd)
    s = S()
    if f.mode != "w":
        raise OSError(errno.EBADF, "Bad file descriptor")
    data = bytes(data)
    if in_sim():
        s.point("write", progress=True, intr=True)
    p = f.pipe
    done = 0
    while True:
        if p.r_open == 0:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        free = p.cap - len(p.buf)
        left = len(data) - done
        if left == 0:
            break
        if left <= PIPE_BUF and free < left and done == 0:
            take = 0
        else:
            take = min(free, left)
        if take:
            p.buf += data[done:done + take]
            p.total += take
            done += take
            s.trace("write", fd - FD0, take)
            if p.on_data:
                p.on_data(p)
            continue
        if not f.blocking:
            if done:
                return done
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
        if not in_sim():
            return done
        need = left if left <= PIPE_BUF else 1
        s.block(lambda: p.r_open == 0 or p.cap - len(p.buf) >= need, None, "write", intr=True)
    return done


def fd_close(fd):
    f = lookup(fd)
    f.closed = True
    p = f.pipe
    if f.mode == "r":
        p.r_open -= 1
        if p.r_open == 0 and p.on_space:
            p.on_space(p)
    else:
        p.w_open -= 1
        if p.w_open == 0 and p.on_wclose:
            p.on_wclose(p)


class FDRaw(io.RawIOBase):
    """Raw file over a simulated descriptor."""

    def __init__(self, fd, mode, closefd=True):
        self._fd = fd
        self._m = mode
        self._closefd = closefd
        self.name = fd
        self.mode = mode + "b"

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def readable(self):
        return self._m == "r"

    def writable(self):
        return self._m == "w"

    def seekable(self):
        return False

    def isatty(self):
        return False

    def readinto(self, b):
        try:
            data = fd_read(self._fd, len(b))
        except BlockingIOError:
            return None
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        try:
            return fd_write(self._fd, bytes(b))
        except BlockingIOError:
            return None

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                s = S()
                if self._closefd and s is not None:
                    f = s.fds.get(self._fd)
                    if f is not None and not f.closed:
                        fd_close(self._fd)


def is_fake(fd):
    return isinstance(fd, int) and fd >= FD0


def open_fd(fd, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    m = "w" if ("w" in mode or "a" in mode) else "r"
    raw = FDRaw(fd, m, closefd)
    if "b" in mode:
        if buffering == 0:
            return raw
        size = buffering if buffering and buffering > 1 else io.DEFAULT_BUFFER_SIZE
        return io.BufferedWriter(raw, size) if m == "w" else io.BufferedReader(raw, size)
    size = io.DEFAULT_BUFFER_SIZE
    b = io.BufferedWriter(raw, size) if m == "w" else io.BufferedReader(raw, size)
    return io.TextIOWrapper(b, encoding or "utf-8", errors, newline, line_buffering=(buffering == 1))


# ---- patched os functions ------------------------------------------------------------------------
def p_read(fd, n):
    return fd_read(fd, n) if is_fake(fd) else o_read(fd, n)


def p_write(fd, data):
    return fd_write(fd, data) if is_fake(fd) else o_write(fd, data)


def p_close(fd):
    return fd_close(fd) if is_fake(fd) else o_close(fd)


def p_set_blocking(fd, b):
    if is_fake(fd):
        lookup(fd).blocking = bool(b)
    else:
        o_set_blocking(fd, b)


def p_get_blocking(fd):
    return lookup(fd).blocking if is_fake(fd) else o_get_blocking(fd)


def p_isatty(fd):
    return False if is_fake(fd) else o_isatty(fd)


def _fileno(x):
    if isinstance(x, int):
        return x
    return x.fileno()


def p_select(r, w, x, timeout=None):
    """select() over simulated and real descriptors."""
    if not in_sim():
        return o_select(r, w, x, timeout)
    s = S()
    rr = [(o, _fileno(o)) for o in r]
    ww = [(o, _fileno(o)) for o in w]
    real_r = [o for o, n in rr if not is_fake(n)]
    real_w = [o for o, n in ww if not is_fake(n)]

    for o, n in rr + ww:
        if is_fake(n):
            lookup(n)

    def poll():
        a, b = [], []
        rs, ws = (), ()
        if real_r or real_w:
            rs, ws, _ = o_select(real_r, real_w, [], 0)
        for o, n in rr:
            if is_fake(n):
                f = s.fds[n]
                if f.closed or readable(f):
                    a.append(o)
            elif o in rs:
                a.append(o)
        for o, n in ww:
            if is_fake(n):
                f = s.fds[n]
                if f.closed or writable(f):
                    b.append(o)
            elif o in ws:
                b.append(o)
        return a, b

    s.point("select", progress=False, intr=True)
    a, b = poll()
    if not a and not b and (timeout is None or timeout > 0):
        s.block(lambda: any(poll()), timeout, "select", intr=True)
        a, b = poll()
    return a, b, []


class SimPoll:
    """select.poll() replacement (no real descriptors needed here)."""

    def __init__(self):
        self._m = {}

    def register(self, fd, ev=select.POLLIN | select.POLLPRI | select.POLLOUT):
        self._m[_fileno(fd)] = ev

    def modify(self, fd, ev):
        self._m[_fileno(fd)] = ev

    def unregister(self, fd):
        del self._m[_fileno(fd)]

    def poll(self, timeout=None):
        r = [fd for fd, e in self._m.items() if e & select.POLLIN]
        w = [fd for fd, e in self._m.items() if e & select.POLLOUT]
        t = None if timeout is None or timeout < 0 else timeout / 1000.0
        a, b, _ = p_select(r, w, [], t)
        out = []
        s = S()
        for fd in self._m:
            e = 0
            f = s.fds.get(fd) if s else None
            if fd in a:
                if f is not None:
                    if f.pipe.buf:
                        e |= select.POLLIN
                    if f.pipe.w_open == 0:
                        e |= select.POLLHUP
                else:
                    e |= select.POLLIN
            if fd in b:
                if f is not None and f.pipe.r_open == 0:
                    e |= select.POLLERR
                e |= select.POLLOUT
            if e:
                out.append((fd, e))
        return out


class SimEpoll:
    """select.epoll replacement on top of SimPoll."""

    def __init__(self, sizehint=-1, flags=0):
        self._p = SimPoll()
        self.closed = False

    def register(self, fd, ev=select.EPOLLIN):
        self._p.register(fd, ev)

    def modify(self, fd, ev):
        self._p.modify(fd, ev)

    def unregister(self, fd):
        self._p.unregister(fd)

    def poll(self, timeout=None, maxevents=-1):
        return self._p.poll(None if timeout is None or timeout < 0 else timeout * 1000)

    def close(self):
        self.closed = True

    def fileno(self):
        return 3

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# ---- processes -----------------------------------------------------------------------------------
class SimProc:
    """A simulated child process.  Behaviour in a generator `program(proc)`.

    The generator yields requests:
      ("sleep", dt)            compute / wait
      ("read",)                next chunk of stdin (b"" at EOF); result sent back
      ("write", fd, bytes)     1 or 2; blocks while the pipe is full
      ("exit", code)
    """

    def __init__(self, sim, args, cwd, env, stdin, stdout, stderr):
        self.sim = sim
        self.pid = sim.next_pid
        sim.next_pid += 1
        self.args = args
        self.cwd = cwd
        self.env = env
        self.stdin, self.stdout, self.stderr = stdin, stdout, stderr   # SimPipe, None (inherit) or "null"
        self.alive = True
        self.reaped = False
        self.reap_at = 0.0
        self.status = None
        self.kind = "?"
        self.gen = None
        self.waiting = None
        self.ev = None
        self.killed_at = None
        self.started_at = sim.now
        self.died_at = None
        self.by_kill = False
        self.steps = 0
        self.meta = {}
        sim.procs[self.pid] = self
        if isinstance(stdin, SimPipe):
            stdin.r_open += 1
            stdin.on_data = lambda p: self._kick()
            stdin.on_wclose = lambda p: self._kick()
        for p in self._outs():
            p.w_open += 1
            p.on_space = lambda p: self._kick()
        self._inbuf_kick = False

    def _outs(self):
        outs = []
        for p in (self.stdout, self.stderr):
            if isinstance(p, SimPipe):
                outs.append(p)
        return outs

    def start(self, gen, delay):
        self.gen = gen
        self.ev = self.sim.at(delay, self._step, None)

    def _step(self, value):
        self.ev = None
        if not self.alive:
            return
        self.steps += 1
        f = self.sim.step_hook(self) if self.sim.step_hook else None
        if f is not None:
            if f[0] == "die":
                self.die(f[1])
                return
            self.ev = self.sim.at(f[1], self._step, value)     # stall
            return
        try:
            req = self.gen.send(value)
        except StopIteration:
            self.die(0)
            return
        self._do(req)

    def _do(self, req):
        op = req[0]
        if op == "sleep":
            self.ev = self.sim.at(req[1], self._step, None)
        elif op == "hang":
            self.waiting = None
        elif op == "exit":
            self.die(-req[1])
        elif op == "read":
            self.waiting = ("read",)
            self._kick()
        elif op == "write":
            self.waiting = ("write", req[1], bytes(req[2]), 0)
            self._kick()
        else:
            raise HarnessError("bad process request %r" % (req,))

    def _kick(self):
        """Something changed on a pipe; continue if the pending request can proceed."""
        if not self.alive or self.ev is not None or self.waiting is None:
            return
        s = self.sim
        w = self.waiting
        if w[0] == "read":
            p = self.stdin
            if not isinstance(p, SimPipe):
                self.waiting = None
                self.ev = s.at(1e-5, self._step, b"")
                return
            if p.buf:
                n = len(p.buf)
                if n > 65536:
                    n = 65536
                # a reader may see only part of what is being written
                if n > 1 and s.p_split:
                    k = s.choose("inchunk", 5, 1 - s.p_split)
                    if k:
                        n = max(1, (n * k) // 5 if k > 1 else 1)
                        s.fired("pipe-split-in")
                data = bytes(p.buf[:n])
                del p.buf[:n]
                self.waiting = None
                self.ev = s.at(self._lat("inlat"), self._step, data)
            elif p.w_open == 0:
                self.waiting = None
                self.ev = s.at(self._lat("inlat"), self._step, b"")
        elif w[0] == "write":
            _, fd, data, off = w
            p = self.stdout if fd == 1 else self.stderr
            if not isinstance(p, SimPipe):
                if isinstance(p, tuple) and p[2] is not None:
                    h = p[2]
                    h.node.data[h.pos:] = data
                    h.pos += len(data)
                self.waiting = None
                self.ev = s.at(1e-5, self._step, None)
                return
            if p.r_open == 0:
                self.waiting = None
                self.die(13)       # SIGPIPE
                return
            left = len(data) - off
            free = p.cap - len(p.buf)
            if left == 0:
                self.waiting = None
                self.ev = s.at(1e-6, self._step, None)
                return
            if free <= 0:
                return
            n = min(left, free)
            if n > 1 and s.p_split:
                k = s.choose("outchunk", 6, 1 - s.p_split)
                if k:
                    n = (1, n - 1, max(1, n // 2), min(n, 4096), min(n, 22))[k - 1]
                    s.fired("pipe-split-out")
            p.buf += data[off:off + n]
            p.total += n
            s.trace("child-out", self.pid, fd, n)
            self.waiting = ("write", fd, data, off + n)
            self.steps += 1
            f = s.step_hook(self) if s.step_hook else None
            if f is not None and f[0] == "die":
                self.die(f[1])
                return
            if off + n < len(data):
                self.ev = s.at(self._lat("outlat"), self._rekick)
            else:
                self.waiting = None
                self.ev = s.at(self._lat("outlat"), self._step, None)

    def _rekick(self):
        self.ev = None
        self._kick()

    def _lat(self, stream):
        s = self.sim
        d = (2e-5, 3e-4, 4e-3, 0.05, 0.2)[s.choose(stream, 5, s.p_fast)]
        s.total_lat += d
        return d

    def die(self, status):
        """status > 0: signal number; <= 0: -exit code."""
        if not self.alive:
            return
        self.alive = False
        s = self.sim
        self.died_at = s.now
        if self.ev is not None:
            s.cancel(self.ev)
            self.ev = None
        if self.gen is not None:
            g, self.gen = self.gen, None
            try:
                g.close()
            except Exception:
                pass
        if isinstance(self.stdin, SimPipe):
            self.stdin.r_open -= 1
        for p in self._outs():
            p.w_open -= 1
        self.status = status if status > 0 else ((-status) << 8)
        # fds close before the zombie is visible to waitpid
        self.reap_at = s.now + (0.0, 1e-4, 3e-3, 0.05)[s.choose("reaplat", 4, 0.5)]
        if self.reap_at > s.now:
            s.at(self.reap_at - s.now, lambda: None)
        s.trace("died", self.pid, status)
        if "on_die" in self.meta:
            self.meta["on_die"](self)

    def signal(self, sig):
        s = self.sim
        if self.killed_at is None:
            self.killed_at = s.now
        if not self.alive:
            return
        ign = self.meta.get("ignores", ())
        if sig == 0 or sig in ign:
            return
        d = (0.0, 1e-4, 3e-3, 0.05)[s.choose("killlat", 4, 0.5)]
        s.at(d, self._killed, sig)

    def _killed(self, sig):
        if self.alive:
            self.by_kill = True
            self.die(sig)

    def waitable(self):
        return not self.alive and self.sim.now >= self.reap_at and not self.reaped


def p_kill(pid, sig):
    s = S()
    if s is not None and pid in s.procs:
        p = s.procs[pid]
        if p.reaped:
            raise ProcessLookupError(errno.ESRCH, "No such process")
        if in_sim():
            s.point("kill", progress=None)
        s.trace("kill", pid, sig)
        p.signal(int(sig))
        return
    if isinstance(pid, int) and pid >= 5_000_000:
        raise ProcessLookupError(errno.ESRCH, "No such process")
    if s is not None:
        raise HarnessError("os.kill on a real process inside a simulation")
    o_kill(pid, sig)


def p_waitpid(pid, flags):
    s = S()
    if isinstance(pid, int) and pid >= 5_000_000:
        p = s.procs.get(pid) if s is not None else None
        if p is None or p.reaped:
            raise ChildProcessError(errno.ECHILD, "No child processes")
        if in_sim():
            if not flags & os.WNOHANG:
                s.point("waitpid", progress=None)
                if not p.waitable():
                    s.block(p.waitable, None, "waitpid")
            else:
                s.point("waitpid-nohang", progress=False)
        if p.waitable():
            p.reaped = True
            s.trace("reaped", pid)
            return pid, p.status
        return 0, 0
    return o_waitpid(pid, flags)


def sim_file(s, spec):
    """The simulated file behind a stdout=/stderr= argument, if it is one."""
    try:
        n = spec if isinstance(spec, int) else spec.fileno()
    except Exception:
        return None
    return s.fs.fds.get(n) if s.fs is not None else None


class SimPopen(RealPopen):
    """subprocess.Popen whose child is a SimProc; everything above _execute_child is CPython's own code."""

    def _get_handles(self, stdin, stdout, stderr):
        s = S()
        if s is None:
            return RealPopen._get_handles(self, stdin, stdout, stderr)
        self._sim_child = [None, None, None]
        res = [-1, -1, -1, -1, -1, -1]

        def out(which, spec):
            if spec is None:
                return None, -1
            if spec == subprocess.PIPE:
                p = SimPipe(s)
                return p, new_fd(p, "r")
            if spec == subprocess.DEVNULL:
                return "null", -1
            n = spec if isinstance(spec, int) else None
            if n is not None and is_fake(n):
                return lookup(n).pipe, -1
            return ("file", spec, sim_file(s, spec)), -1

        if stdin == subprocess.PIPE:
            p = SimPipe(s)
            self._sim_child[0] = p
            res[1] = new_fd(p, "w")
        elif stdin is not None and stdin != subprocess.DEVNULL and is_fake(stdin if isinstance(stdin, int) else -1):
            self._sim_child[0] = lookup(stdin).pipe
        self._sim_child[1], res[2] = out(1, stdout)
        if stderr == subprocess.STDOUT:
            self._sim_child[2] = self._sim_child[1]
        else:
            self._sim_child[2], res[4] = out(2, stderr)
        return tuple(res)

    def _execute_child(self, args, executable, preexec_fn, close_fds, pass_fds, cwd, env, startupinfo,
                       creationflags, shell, p2cread, p2cwrite, c2pread, c2pwrite, errread, errwrite, *rest):
        s = S()
        if s is None:
            return RealPopen._execute_child(self, args, executable, preexec_fn, close_fds, pass_fds, cwd, env,
                                            startupinfo, creationflags, shell, p2cread, p2cwrite, c2pread,
                                            c2pwrite, errread, errwrite, *rest)
        self._child_created = False
        if shell:
            argv = ["/bin/sh", "-c", args if isinstance(args, str) else args[0]]
        else:
            argv = [args] if isinstance(args, (str, bytes)) else list(args)
        argv = [os.fsdecode(os.fspath(a)) if not isinstance(a, str) else a for a in argv]
        if in_sim():
            s.point("spawn", cost=2e-4)
        s.trace("spawn", argv[0], len(argv))
        if cwd is not None and not os.path.isdir(cwd):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", os.fspath(cwd))
        s.world.spawn(s, self, argv, cwd, env)     # raises OSError for injected failures
        self._child_created = True
        self._closed_child_pipe_fds = True

    def _internal_poll(self, _deadstate=None, _waitpid=p_waitpid, _WNOHANG=os.WNOHANG, _ECHILD=errno.ECHILD):
        if self.pid is not None and self.pid >= 5_000_000 and S() is None:
            if self.returncode is None and _deadstate is not None:
                self.returncode = _deadstate
            return self.returncode
        return RealPopen._internal_poll(self, _deadstate, _waitpid, _WNOHANG, _ECHILD)

    def _handle_exitstatus(self, sts, *a, **k):
        return RealPopen._handle_exitstatus(self, sts, *a, **k)

    def __del__(self, *a, **k):
        # a simulated child never needs the zombie list of the real module
        return None


class World:
    """Installed executables of the simulated machine.  Subclasses add programs."""

    def __init__(self):
        self.programs = {}
        self.spawn_log = []

    def spawn(self, s, popen, argv, cwd, env):
        name = os.path.basename(argv[0])
        self.spawn_log.append((s.now, name, tuple(a if len(a) < 200 else a[:40] + "..." for a in argv)))
        exc = self.spawn_fault(s, name, argv)
        if exc is not None:
            raise exc
        prog = self.programs.get(name)
        if prog is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", argv[0])
        c = popen._sim_child
        proc = SimProc(s, argv, cwd, env, *c)
        proc.kind = name
        popen.pid = proc.pid
        proc.popen_args = popen.args
        gen = prog(s, proc, argv)
        next_delay = (1e-4, 2e-3, 0.05, 0.5)[s.choose("startlat", 4, s.p_fast)]
        s.total_lat += next_delay
        self.started(s, proc)
        # prime the generator at the first step
        proc.start(_primed(gen), next_delay)

    def spawn_fault(self, s, name, argv):
        return None

    def started(self, s, proc):
        pass


def _primed(gen):
    """Wrap so that the first .send(None) starts the generator (plain generators already do)."""
    return gen


_inst = False


def install():
    global _inst
    if _inst:
        return
    _inst = True
    os.read, os.write, os.close = p_read, p_write, p_close
    os.kill, os.waitpid = p_kill, p_waitpid
    os.set_blocking, os.get_blocking, os.isatty = p_set_blocking, p_get_blocking, p_isatty
    select.select = p_select
    select.poll = SimPoll
    select.epoll = SimEpoll
    selectors.SelectSelector._select = staticmethod(p_select)
    selectors.DefaultSelector = selectors.SelectSelector
    subprocess.Popen = SimPopen
    subprocess._PopenSelector = selectors.SelectSelector
    subprocess._time = core._monotonic
    if hasattr(selectors, "PollSelector"):
        selectors.PollSelector._selector_cls = SimPoll
    if hasattr(selectors, "EpollSelector"):
        selectors.EpollSelector._selector_cls = SimEpoll

    def io_open(file, mode="r", *a, **k):
        if is_fake(file):
            return open_fd(file, mode, *a, **k)
        return o_io_open(file, mode, *a, **k)

    io.open = io_open
    if builtins.open is o_io_open:
        builtins.open = io_open
    subprocess._active[:] = []

"""Simulated file system under /sim: in memory, with faults at every operation, process crashes and restarts.

All of Python's file access (open, os.*, pathlib, shutil, tempfile) on paths under ROOT ends here; other paths are real
(package data of the installed libraries, read only in practice).  Crash semantics are those of a killed process: what was
handed to the kernel by write() stays, what sat in Python's buffers is lost."""
import builtins
import errno
import fcntl
import io
import os
import posixpath
import shutil
import stat as _st
import sys

from . import core, procs
from .core import in_sim

ROOT = "/sim"
FD1 = 2_000_000
O = {n: getattr(os, n) for n in (
    "open", "close", "read", "write", "lseek", "fstat", "stat", "lstat", "access", "listdir", "scandir", "mkdir", "rmdir", "unlink", "remove",
    "rename", "replace", "link", "symlink", "readlink", "chmod", "fchmod", "chown", "fchown", "lchown", "utime", "truncate", "ftruncate", "fsync", "fdatasync", "getcwd", "chdir", "isatty",
    "pread", "pwrite", "sendfile", "copy_file_range", "set_inheritable", "get_inheritable", "set_blocking", "get_blocking", "dup", "posix_fallocate", "statvfs",
    "getcwdb", "fchdir", "writev", "readv", "getxattr", "listxattr", "setxattr", "removexattr") if hasattr(os, n)}
o_io_open = procs.o_io_open


class SimCrash(BaseException):
    """The simulated process is gone; only what the file system holds survives."""


class Node:
    __slots__ = ("kind", "data", "mode", "ino", "ents", "target", "mtime", "nlink", "special")

    def __init__(self, kind, ino, mode):
        self.kind = kind
        self.ino = ino
        self.mode = mode
        self.data = bytearray() if kind == "f" else None
        self.ents = {} if kind == "d" else None
        self.target = None
        self.mtime = 0.0
        self.nlink = 1
        self.special = None


class FH:
    __slots__ = ("node", "pos", "flags", "path", "closed", "bad")

    def __init__(self, node, flags, path):
        self.node = node
        self.pos = 0
        self.flags = flags
        self.path = path
        self.closed = False
        self.bad = None


def cur():
    s = core.CUR
    return s.fs if s is not None else None


def err(no, *paths):
    e = OSError(no, os.strerror(no), *(paths[:1]))
    if len(paths) > 1:
        e = OSError(no, os.strerror(no), paths[0], None, paths[1])
    return e


class FS:
    def __init__(self, sim, salt=0):
        self.sim = sim
        sim.fs = self
        self.salt = salt
        self.next_ino = 10
        self.root = self.new("d", 0o755)
        self.fds = {}
        self.next_fd = FD1
        self.cwd = None
        self.crashed = False
        self.faults = []
        self.ops = {}             # operation class -> count, in this process lifetime
        self.total = 0
        self.full = False
        self.p_short_read = 0.0
        self.p_short_write = 0.0
        self.log = []             # (op, path) of this lifetime, bounded
        self.active = True        # faults and counting on
        self.hit = []
        self.hit_paths = []
        self.on_op = None
        self.cur_fault = None
        for d in ("/sim", "/sim/tmp", "/sim/home", "/sim/work"):
            self.k_mkdir(d)

    # ---- direct access for harness and simulated programs (no faults, no scheduling) ------------
    def new(self, kind, mode):
        self.next_ino += 1
        n = Node(kind, self.next_ino, mode)
        n.mtime = self.sim.now + self.sim.wall_offset
        return n

    def k_mkdir(self, path):
        d = self.root
        for part in path.strip("/").split("/"):
            if part not in d.ents:
                d.ents[part] = self.new("d", 0o755)
            d = d.ents[part]
        return d

    def k_write(self, path, data, mode=0o644, append=False):
        d = self.k_mkdir(posixpath.dirname(path))
        n = d.ents.get(posixpath.basename(path))
        if n is None or n.kind != "f":
            n = d.ents[posixpath.basename(path)] = self.new("f", mode)
        if isinstance(data, str):
            data = data.encode()
        if append:
            n.data += data
        else:
            n.data[:] = data
        n.mtime = self.sim.now + self.sim.wall_offset
        return n

    def k_node(self, path):
        n = self.root
        for part in path.strip("/").split("/"):
            if part == "":
                continue
            if n is None or n.kind != "d":
                return None
            n = n.ents.get(part)
        return n

    def k_read(self, path):
        n = self.k_node(path)
        return bytes(n.data) if n is not None and n.kind == "f" else None

    def k_exists(self, path):
        return self.k_node(path) is not None

    def k_unlink(self, path):
        d = self.k_node(posixpath.dirname(path))
        if d is not None and d.kind == "d":
            d.ents.pop(posixpath.basename(path), None)

    def k_unlink_tree(self, path):
        if self.k_exists(posixpath.dirname(path)):
            self.k_node(posixpath.dirname(path)).ents.pop(posixpath.basename(path), None)

    def k_rename(self, a, b):
        d = self.k_node(posixpath.dirname(a))
        n = d.ents.pop(posixpath.basename(a))
        self.k_mkdir(posixpath.dirname(b)).ents[posixpath.basename(b)] = n

    def tree(self, path="/sim/work"):
        """path -> bytes (files), None (directories) or 'link'"""
        out = {}

        def walk(n, p):
            if n is None:
                return
            if n.kind == "f":
                out[p] = bytes(n.data)
            elif n.kind == "l":
                out[p] = "-> " + n.target
            else:
                out[p + "/"] = None
                for k in sorted(n.ents):
                    walk(n.ents[k], p + "/" + k)
        walk(self.k_node(path), path)
        return out

    def lifetime(self, cwd="/sim/work"):
        """A new process starts: no descriptors, nothing remembered."""
        self.fds = {}
        self.cwd = cwd
        self.crashed = False
        self.ops = {}
        self.total = 0
        self.log = []
        self.hit = []
        self.hit_paths = []
        self.faults = []
        self.full = False

    # ---- fault machinery -------------------------------------------------------------------------
    def op(self, name, path, dataop=False):
        """Called at every operation of the code under test.  Returns a data fault or None."""
        s = self.sim
        if self.crashed:
            raise SimCrash()
        if not in_sim():
            return None
        s.point("fs." + name, cost=2e-5, progress=True, intr=False)
        if self.crashed:
            raise SimCrash()
        s.trace("fs", name, short(path))
        if self.on_op is not None:
            self.on_op(name, path)
        if not self.active:
            return None
        self.total += 1
        self.ops[name] = self.ops.get(name, 0) + 1
        if len(self.log) < 4000:
            self.log.append((name, path))
        if self.full and name in ("write", "mkdir", "symlink", "link"):
            raise err(errno.ENOSPC, path)
        for f in self.faults:
            if f.get("done"):
                continue
            if f.get("op") not in (None, "any", name):
                if not (f["op"] == "mut" and name in ("write", "rename", "unlink", "mkdir", "create", "truncate", "close", "fsync", "link", "symlink", "rmdir", "chmod")):
                    continue
            if f.get("where") and f["where"] not in path:
                continue
            n = f.setdefault("seen", 0)
            f["seen"] = n + 1
            if n != f.get("at", 0):
                continue
            if not f.get("sticky"):
                f["done"] = True
            else:
                f["at"] = f["at"] + 1
            r = self.apply(f, name, path)
            if r is not None:
                return r
        return None

    def apply(self, f, name, path):
        k = f["k"]
        s = self.sim
        self.hit.append(k + "@" + name)
        self.hit_paths.append(path)
        s.fired("fs-" + k)
        s.trace("fault", k, name)
        if k == "errno":
            e = f.get("errno", errno.EIO)
            if name == "close":
                self.cur_fault = ("close", e)
                return ("close", e)
            raise err(e, path)
        if k == "crash":
            if name == "write":
                return ("torn", f.get("keep", 0.5))
            if f.get("after") and name not in ("read", "open", "stat"):
                return ("after",)
            self.crash()
        if k == "full":
            self.full = True
            if name == "write":
                return ("partial", f.get("keep", 0.5), errno.ENOSPC)
            if name in ("create", "mkdir"):
                raise err(errno.ENOSPC, path)
            return None
        if k == "short":
            return ("short", f.get("keep", 0.5))
        if k == "interrupt":
            raise KeyboardInterrupt()
        if k == "stall":
            s.sleep(f.get("d", 5.0))
            return None
        raise core.HarnessError("bad fs fault %r" % (f,))

    def crash(self):
        self.crashed = True
        self.sim.trace("process crash")
        raise SimCrash()

    # ---- path handling ---------------------------------------------------------------------------
    def absolute(self, path, dir_fd=None):
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith("/"):
            base = self.fds[dir_fd].path if dir_fd is not None and dir_fd in self.fds else (self.cwd or O["getcwd"]())
            p = posixpath.join(base, p)
        return p

    def parent(self, path, depth=0):
        """-> (directory node, last component); resolves . .. and links on the way."""
        parts = [x for x in path.split("/") if x not in ("", ".")]
        trail = path.endswith("/") and parts
        node = self.root
        stack = [self.root]
        for i, part in enumerate(parts[:-1]):
            if part == "..":
                if len(stack) > 1:
                    stack.pop()
                node = stack[-1]
                continue
            if node.kind != "d":
                raise err(errno.ENOTDIR, path)
            nxt = node.ents.get(part)
            if nxt is None:
                raise err(errno.ENOENT, path)
            if nxt.kind == "l":
                if depth > 20:
                    raise err(errno.ELOOP, path)
                base = "/" + "/".join(parts[:i])
                return self.parent(posixpath.join(base, nxt.target) + "/" + "/".join(parts[i + 1:]), depth + 1)
            node = nxt
            stack.append(node)
        if not parts:
            return None, ""
        if parts[-1] == "..":
            if len(stack) > 1:
                stack.pop()
            if len(stack) == 1:
                return None, ""
            # find name of the directory
            d = stack[-2]
            for k, v in d.ents.items():
                if v is stack[-1]:
                    return d, k
        if node.kind != "d":
            raise err(errno.ENOTDIR, path)
        return node, parts[-1]

    def find(self, path, follow=True, depth=0):
        d, name = self.parent(path)
        if d is None:
            return self.root
        n = d.ents.get(name)
        if n is None:
            raise err(errno.ENOENT, path)
        if n.kind == "l" and follow:
            if depth > 20:
                raise err(errno.ELOOP, path)
            return self.find(posixpath.join(posixpath.dirname(path), n.target), True, depth + 1)
        if path.endswith("/") and n.kind == "f":
            raise err(errno.ENOTDIR, path)
        return n

    def touch(self, n):
        n.mtime = self.sim.now + self.sim.wall_offset

    def wcheck(self, d, path):
        if not d.mode & 0o200:
            raise err(errno.EACCES, path)

    # ---- operations ------------------------------------------------------------------------------
    def open(self, path, flags, mode=0o777):
        p = path
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        create = bool(flags & os.O_CREAT)
        after = None
        try:
            d, name = self.parent(p)
        except OSError:
            self.op("open", p)
            raise
        n = d.ents.get(name) if d is not None else self.root
        if n is not None and n.kind == "l":
            tgt = posixpath.join(posixpath.dirname(p), n.target)
            if flags & os.O_NOFOLLOW:
                raise err(errno.ELOOP, p)
            return self.open(tgt, flags, mode)
        kind = "create" if n is None and create else "truncate" if flags & os.O_TRUNC else "open"
        after = self.op(kind, p)
        # state may have changed while waiting
        d, name = self.parent(p)
        n = d.ents.get(name) if d is not None else self.root
        if n is None:
            if not create:
                raise err(errno.ENOENT, p)
            self.wcheck(d, p)
            if self.full and len(d.ents) > 4096:
                raise err(errno.ENOSPC, p)
            n = self.new("f", mode & ~0o022 & 0o777)
            d.ents[name] = n
            self.touch(d)
        else:
            if create and flags & os.O_EXCL:
                raise err(errno.EEXIST, p)
            if n.kind == "d" and (acc != os.O_RDONLY or create):
                raise err(errno.EISDIR, p)
            if flags & getattr(os, "O_DIRECTORY", 0) and n.kind != "d":
                raise err(errno.ENOTDIR, p)
            if acc != os.O_RDONLY and not n.mode & 0o200 or acc != os.O_WRONLY and not n.mode & 0o400:
                raise err(errno.EACCES, p)
            if flags & os.O_TRUNC and acc != os.O_RDONLY:
                del n.data[:]
                self.touch(n)
        if after is not None and after[0] == "after":
            self.crash()
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = FH(n, flags, p)
        return fd

    def fh(self, fd):
        h = self.fds.get(fd)
        if h is None or h.closed:
            if self.crashed:
                raise SimCrash()
            raise err(errno.EBADF)
        return h

    def read(self, fd, n, pos=None):
        h = self.fh(fd)
        if h.flags & os.O_ACCMODE == os.O_WRONLY:
            raise err(errno.EBADF)
        if h.node.kind == "d":
            raise err(errno.EISDIR)
        f = self.op("read", h.path)
        at = h.pos if pos is None else pos
        data = bytes(h.node.data[at:at + n])
        k = 0
        if f is not None and f[0] == "short" and len(data) > 1:
            k = max(1, int(len(data) * f[1]))
        elif self.p_short_read and len(data) > 1 and self.sim.choose("shortread", 2, 1 - self.p_short_read):
            k = max(1, len(data) // 3)
            self.sim.fired("fs-short-read")
        if k:
            data = data[:k]
        if pos is None:
            h.pos += len(data)
        return data

    def write(self, fd, data, pos=None):
        h = self.fh(fd)
        if h.flags & os.O_ACCMODE == os.O_RDONLY:
            raise err(errno.EBADF)
        data = bytes(data)
        f = self.op("write", h.path)
        n = len(data)
        fail = None
        if f is not None:
            if f[0] == "torn":
                n = int(n * f[1])
                fail = "crash"
            elif f[0] == "partial":
                n = int(n * f[1])
                fail = f[2] if n == 0 else None
            elif f[0] == "short" and n > 1:
                n = max(1, int(n * f[1]))
        elif self.p_short_write and n > 1 and in_sim() and self.sim.choose("shortwrite", 2, 1 - self.p_short_write):
            n = max(1, n // 3)
            self.sim.fired("fs-short-write")
        nd = h.node.data
        at = h.pos if pos is None else pos
        if h.flags & os.O_APPEND:
            at = len(nd)
        if n:
            if at > len(nd):
                nd.extend(b"\0" * (at - len(nd)))
            nd[at:at + n] = data[:n]
            if pos is None:
                h.pos = at + n
            self.touch(h.node)
        if fail == "crash":
            self.crash()
        if fail is not None:
            raise err(fail, h.path)
        return n

    def close(self, fd):
        h = self.fh(fd)
        h.closed = True
        del self.fds[fd]
        if self.crashed:
            return
        if h.flags & os.O_ACCMODE != os.O_RDONLY:
            f = self.op("close", h.path)
            if f is not None and f[0] == "close":
                # a file server reports a delayed write error: the data did not arrive
                if not h.node.special:
                    del h.node.data[len(h.node.data) // 2:]
                raise err(f[1], h.path)
            if f is not None and f[0] == "after":
                self.crash()

    def lseek(self, fd, off, how):
        h = self.fh(fd)
        h.pos = off if how == 0 else h.pos + off if how == 1 else len(h.node.data) + off
        return h.pos

    def truncate_node(self, n, size, path):
        f = self.op("truncate", path)
        if size <= len(n.data):
            del n.data[size:]
        else:
            n.data.extend(b"\0" * (size - len(n.data)))
        self.touch(n)
        self.after(f)

    def after(self, f):
        if f is not None and f[0] == "after":
            self.crash()

    def stat_result(self, n):
        fmt = {"f": _st.S_IFREG, "d": _st.S_IFDIR, "l": _st.S_IFLNK}[n.kind]
        if n.special:
            fmt = _st.S_IFCHR
        size = len(n.data) if n.kind == "f" else 4096
        t = int(n.mtime)
        ns = int(n.mtime * 1e9)
        return os.stat_result((fmt | n.mode, n.ino, 77, n.nlink, 1000, 1000, size, t, t, t), {
            "st_atime": n.mtime, "st_mtime": n.mtime, "st_ctime": n.mtime, "st_atime_ns": ns, "st_mtime_ns": ns, "st_ctime_ns": ns,
            "st_blksize": 4096, "st_blocks": (size + 511) // 512, "st_rdev": 0})

    def stat(self, p, follow=True):
        self.op("stat", p)
        return self.stat_result(self.find(p, follow))

    def names(self, n):
        l = sorted(n.ents)
        if self.salt:
            # the order of a directory is nobody's promise
            l.sort(key=lambda k: (procs_hash(k) * (2 * self.salt + 1)) % 1009)
        return l

    def listdir(self, p):
        self.op("listdir", p)
        n = self.find(p)
        if n.kind != "d":
            raise err(errno.ENOTDIR, p)
        return self.names(n)

    def mkdir(self, p, mode=0o777):
        f = self.op("mkdir", p)
        d, name = self.parent(p)
        if d is None or name in d.ents:
            raise err(errno.EEXIST, p)
        self.wcheck(d, p)
        d.ents[name] = self.new("d", mode & ~0o022)
        self.after(f)

    def rmdir(self, p):
        f = self.op("rmdir", p)
        d, name = self.parent(p)
        n = d.ents.get(name) if d is not None else None
        if n is None:
            raise err(errno.ENOENT, p)
        if n.kind != "d":
            raise err(errno.ENOTDIR, p)
        if n.ents:
            raise err(errno.ENOTEMPTY, p)
        self.wcheck(d, p)
        del d.ents[name]
        self.after(f)

    def unlink(self, p):
        f = self.op("unlink", p)
        d, name = self.parent(p)
        n = d.ents.get(name) if d is not None else None
        if n is None:
            raise err(errno.ENOENT, p)
        if n.kind == "d":
            raise err(errno.EISDIR, p)
        self.wcheck(d, p)
        del d.ents[name]
        n.nlink -= 1
        self.after(f)

    def rename(self, a, b):
        f = self.op("rename", b)
        da, na = self.parent(a)
        n = da.ents.get(na) if da is not None else None
        if n is None:
            raise err(errno.ENOENT, a, b)
        db, nb = self.parent(b)
        t = db.ents.get(nb)
        if t is n:
            return
        if t is not None:
            if t.kind == "d" and n.kind != "d":
                raise err(errno.EISDIR, a, b)
            if t.kind != "d" and n.kind == "d":
                raise err(errno.ENOTDIR, a, b)
            if t.kind == "d" and t.ents:
                raise err(errno.ENOTEMPTY, a, b)
        self.wcheck(da, a)
        self.wcheck(db, b)
        del da.ents[na]
        db.ents[nb] = n
        self.after(f)

    def link(self, a, b):
        f = self.op("link", b)
        n = self.find(a, False)
        d, name = self.parent(b)
        if name in d.ents:
            raise err(errno.EEXIST, a, b)
        d.ents[name] = n
        n.nlink += 1
        self.after(f)

    def symlink(self, target, b):
        f = self.op("symlink", b)
        d, name = self.parent(b)
        if name in d.ents:
            raise err(errno.EEXIST, target, b)
        n = self.new("l", 0o777)
        n.target = os.fspath(target)
        d.ents[name] = n
        self.after(f)


def procs_hash(s):
    h = 7
    for c in s:
        h = (h * 131 + ord(c)) & 0x7FFFFFFF
    return h


def short(p):
    if isinstance(p, (str, bytes)):
        return os.path.basename(p)
    return "?"


class FSRaw(io.RawIOBase):
    def __init__(self, fs, fd, name, mode, closefd=True):
        self._fs = fs
        self._fd = fd
        self.name = name
        self._closefd = closefd
        self._flags = fs.fds[fd].flags & os.O_ACCMODE
        self.mode = mode

    def _fsnow(self):
        fs = cur()
        if fs is not self._fs:
            raise SimCrash() if self._fs.crashed else ValueError("I/O operation on a file of an earlier simulation")
        return fs

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def readable(self):
        return self._flags != os.O_WRONLY

    def writable(self):
        return self._flags != os.O_RDONLY

    def seekable(self):
        return True

    def isatty(self):
        return False

    def readinto(self, b):
        if not self.readable():
            raise io.UnsupportedOperation("not readable")
        d = self._fsnow().read(self._fd, len(b))
        b[:len(d)] = d
        return len(d)

    def readall(self):
        out = []
        while True:
            d = self._fsnow().read(self._fd, 65536)
            if not d:
                return b"".join(out)
            out.append(d)

    def write(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if not self.writable():
            raise io.UnsupportedOperation("not writable")
        return self._fsnow().write(self._fd, bytes(b))

    def seek(self, off, how=0):
        return self._fsnow().lseek(self._fd, off, how)

    def tell(self):
        return self._fsnow().fh(self._fd).pos

    def truncate(self, size=None):
        fs = self._fsnow()
        h = fs.fh(self._fd)
        fs.truncate_node(h.node, h.pos if size is None else size, h.path)
        return h.pos if size is None else size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                fs = cur()
                if fs is self._fs and self._closefd and self._fd in fs.fds:
                    fs.close(self._fd)


def mode_flags(mode):
    m = set(mode)
    plus = "+" in m
    if "x" in m:
        fl = os.O_EXCL | os.O_CREAT
        base = os.O_WRONLY
    elif "w" in m:
        fl = os.O_CREAT | os.O_TRUNC
        base = os.O_WRONLY
    elif "a" in m:
        fl = os.O_CREAT | os.O_APPEND
        base = os.O_WRONLY
    else:
        fl = 0
        base = os.O_RDONLY
    return fl | (os.O_RDWR if plus else base)


def wrap(fs, fd, name, mode, buffering, encoding, errors, newline, closefd):
    if fd not in fs.fds:
        raise err(errno.EBADF)
    binary = "b" in mode
    if buffering is None:
        buffering = -1
    raw = FSRaw(fs, fd, name, mode.replace("t", "") if binary else "r" if "r" in mode and "+" not in mode else "w", closefd)
    if "a" in mode:
        raw.seek(0, 2)
    line = buffering == 1 and not binary
    size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    if "+" in mode:
        b = io.BufferedRandom(raw, size)
    elif raw.writable():
        b = io.BufferedWriter(raw, size)
    else:
        b = io.BufferedReader(raw, size)
    if binary:
        return b
    t = io.TextIOWrapper(b, encoding or "utf-8", errors, newline, line_buffering=line)
    t.mode = mode
    return t


def is_sim(path):
    """Does this path belong to the simulated tree?"""
    fs = cur()
    if fs is None:
        return None
    if isinstance(path, int):
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if p.startswith("/"):
        n = p if "/../" not in p and not p.startswith("//") else posixpath.normpath(p)
        return fs if n == ROOT or n.startswith(ROOT + "/") else None
    if fs.cwd is not None:
        return fs
    return None


def fs_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = cur()
    if fs is not None:
        if isinstance(file, int) and not isinstance(file, bool):
            if file >= FD1:
                return wrap(fs, file, file, mode, buffering, encoding, errors, newline, closefd)
        elif is_sim(file):
            fl = mode_flags(mode)
            if opener is not None:
                fd = opener(file, fl | os.O_CLOEXEC)
                if not (isinstance(fd, int) and fd >= FD1):
                    return o_io_open(fd, mode, buffering, encoding, errors, newline, closefd)
            else:
                p = fs.absolute(file)
                d, name = None, None
                fd = fs.open(p, fl, 0o666)
                if fs.fds[fd].node.kind == "d":
                    del fs.fds[fd]
                    raise err(errno.EISDIR, os.fspath(file))
            return wrap(fs, fd, os.fspath(file) if not isinstance(file, str) else file, mode, buffering, encoding, errors, newline, True)
    elif isinstance(file, int) and file >= FD1:
        raise OSError(errno.EBADF, "Bad file descriptor")
    return prev_open(file, mode, buffering, encoding, errors, newline, closefd, opener)


prev_open = None
_inst = False


class Entry:
    def __init__(self, fs, dirpath, name, node):
        self.name = name
        self.path = posixpath.join(dirpath, name) if dirpath != "." else "./" + name
        self._p = (fs, fs.absolute(self.path), node)

    def _n(self, follow):
        fs, p, n = self._p
        if n.kind == "l" and follow:
            try:
                return fs.find(p)
            except OSError:
                return None
        return n

    def is_dir(self, *, follow_symlinks=True):
        n = self._n(follow_symlinks)
        return n is not None and n.kind == "d"

    def is_file(self, *, follow_symlinks=True):
        n = self._n(follow_symlinks)
        return n is not None and n.kind == "f"

    def is_symlink(self):
        return self._p[2].kind == "l"

    def is_junction(self):
        return False

    def inode(self):
        return self._p[2].ino

    def stat(self, *, follow_symlinks=True):
        fs, p, n = self._p
        return fs.stat(p, follow_symlinks)

    def __fspath__(self):
        return self.path


class Scan:
    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        self.it = iter(())


def install():
    global _inst, prev_open
    if _inst:
        return
    _inst = True
    prev_open = io.open
    try:
        import mmap
        import types
        import cachecontrol.filewrapper as cf

        def sim_mmap(fd, length, *a, **k):
            if fd >= FD1:
                fs = cur()
                if fs is None:
                    raise OSError(errno.EBADF, "Bad file descriptor")
                fh = fs.fh(fd)
                fs.op("mmap", fh.path)
                return bytes(fh.node.data)
            return mmap.mmap(fd, length, *a, **k)
        cf.mmap = types.SimpleNamespace(mmap=sim_mmap, ACCESS_READ=mmap.ACCESS_READ)
    except ImportError:
        pass
    io.open = fs_open
    builtins.open = fs_open

    import tempfile     # it keeps its own reference to unlink
    tempfile._TemporaryFileCloser.cleanup.__defaults__ = (False, lambda p: os.unlink(p))

    def ispath_or_fd(p):
        if isinstance(p, int) and p >= FD1:
            return "fd"
        return "path" if is_sim(p) else None

    def patch(name, fn):
        if name in O:
            prev = getattr(os, name)
            fn = fn(prev)
            fn.__name__ = name
            setattr(os, name, fn)
            for sset in (os.supports_fd, os.supports_dir_fd, os.supports_follow_symlinks, os.supports_effective_ids):
                if prev in sset:
                    sset.add(fn)

    def need(fd):
        fs = cur()
        if fs is None:
            raise OSError(errno.EBADF, "Bad file descriptor")
        return fs

    patch("open", lambda prev: lambda path, flags, mode=0o777, *, dir_fd=None: (
        cur().open(cur().absolute(path, dir_fd), flags, mode) if is_sim(path) or (dir_fd or 0) >= FD1 else prev(path, flags, mode, dir_fd=dir_fd)))
    patch("close", lambda prev: lambda fd: need(fd).close(fd) if isinstance(fd, int) and fd >= FD1 else prev(fd))
    patch("read", lambda prev: lambda fd, n: need(fd).read(fd, n) if isinstance(fd, int) and fd >= FD1 else prev(fd, n))
    patch("write", lambda prev: lambda fd, d: need(fd).write(fd, d) if isinstance(fd, int) and fd >= FD1 else prev(fd, d))
    patch("pread", lambda prev: lambda fd, n, off: need(fd).read(fd, n, off) if fd >= FD1 else prev(fd, n, off))
    patch("pwrite", lambda prev: lambda fd, d, off: need(fd).write(fd, d, off) if fd >= FD1 else prev(fd, d, off))
    patch("writev", lambda prev: lambda fd, bufs: need(fd).write(fd, b"".join(bytes(b) for b in bufs)) if fd >= FD1 else prev(fd, bufs))
    patch("lseek", lambda prev: lambda fd, off, how: need(fd).lseek(fd, off, how) if fd >= FD1 else prev(fd, off, how))
    patch("fstat", lambda prev: lambda fd: need(fd).stat_result(need(fd).fh(fd).node) if isinstance(fd, int) and fd >= FD1 else prev(fd))

    def p_stat(prev):
        def stat(path, *, dir_fd=None, follow_symlinks=True):
            k = ispath_or_fd(path)
            if k == "fd":
                return need(path).stat_result(need(path).fh(path).node)
            if k or (dir_fd or 0) >= FD1:
                return cur().stat(cur().absolute(path, dir_fd), follow_symlinks)
            return prev(path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
        return stat
    patch("stat", p_stat)
    patch("lstat", lambda prev: lambda path, *, dir_fd=None: cur().stat(cur().absolute(path, dir_fd), False) if is_sim(path) or (dir_fd or 0) >= FD1 else prev(path, dir_fd=dir_fd))

    def p_access(prev):
        def access(path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
            if not is_sim(path):
                return prev(path, mode, dir_fd=dir_fd, effective_ids=effective_ids, follow_symlinks=follow_symlinks)
            fs = cur()
            try:
                fs.op("stat", fs.absolute(path))
                n = fs.find(fs.absolute(path), follow_symlinks)
            except OSError:
                return False
            m = n.mode >> 6
            return (m & mode) == mode
        return access
    patch("access", p_access)

    def p_listdir(prev):
        def listdir(path="."):
            k = ispath_or_fd(path)
            if k == "fd":
                return cur().names(cur().fh(path).node)
            return cur().listdir(cur().absolute(path)) if k else prev(path)
        return listdir
    patch("listdir", p_listdir)

    def p_scandir(prev):
        def scandir(path="."):
            k = ispath_or_fd(path)
            if k is None:
                return prev(path)
            fs = cur()
            if k == "fd":
                h = fs.fh(path)
                return Scan([Entry(fs, h.path, x, h.node.ents[x]) for x in fs.names(h.node)])
            p = os.fspath(path)
            names = fs.listdir(fs.absolute(p))
            node = fs.find(fs.absolute(p))
            return Scan([Entry(fs, p, x, node.ents[x]) for x in names if x in node.ents])
        return scandir
    patch("scandir", p_scandir)
    patch("mkdir", lambda prev: lambda path, mode=0o777, *, dir_fd=None: cur().mkdir(cur().absolute(path, dir_fd), mode) if is_sim(path) or (dir_fd or 0) >= FD1 else prev(path, mode, dir_fd=dir_fd))
    patch("rmdir", lambda prev: lambda path, *, dir_fd=None: cur().rmdir(cur().absolute(path, dir_fd)) if is_sim(path) or (dir_fd or 0) >= FD1 else prev(path, dir_fd=dir_fd))
    for nm in ("unlink", "remove"):
        patch(nm, lambda prev: lambda path, *, dir_fd=None: cur().unlink(cur().absolute(path, dir_fd)) if is_sim(path) or (dir_fd or 0) >= FD1 else prev(path, dir_fd=dir_fd))

    def p_rename(prev):
        def rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
            a, b = is_sim(src), is_sim(dst)
            if a and b:
                return a.rename(a.absolute(src, src_dir_fd), a.absolute(dst, dst_dir_fd))
            if a or b:
                raise err(errno.EXDEV, os.fspath(src), os.fspath(dst))
            return prev(src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        return rename
    patch("rename", p_rename)
    patch("replace", p_rename)
    patch("link", lambda prev: lambda src, dst, *, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True: (
        cur().link(cur().absolute(src), cur().absolute(dst)) if is_sim(src) else prev(src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd, follow_symlinks=follow_symlinks)))
    patch("symlink", lambda prev: lambda src, dst, target_is_directory=False, *, dir_fd=None: (
        cur().symlink(src, cur().absolute(dst)) if is_sim(dst) else prev(src, dst, target_is_directory, dir_fd=dir_fd)))

    def p_readlink(prev):
        def readlink(path, *, dir_fd=None):
            if not is_sim(path):
                return prev(path, dir_fd=dir_fd)
            n = cur().find(cur().absolute(path), False)
            if n.kind != "l":
                raise err(errno.EINVAL, os.fspath(path))
            return n.target
        return readlink
    patch("readlink", p_readlink)

    def p_chmod(prev):
        def chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
            k = ispath_or_fd(path)
            if k is None:
                return prev(path, mode, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
            fs = cur()
            if k == "fd":
                fs.fh(path).node.mode = mode & 0o7777
                return
            p = fs.absolute(path)
            f = fs.op("chmod", p)
            fs.find(p, follow_symlinks).mode = mode & 0o7777
            fs.after(f)
        return chmod
    patch("chmod", p_chmod)
    patch("fchmod", lambda prev: lambda fd, mode: setattr(need(fd).fh(fd).node, "mode", mode & 0o7777) if fd >= FD1 else prev(fd, mode))

    def nop_path(prev):
        def f(path, *a, **k):
            if ispath_or_fd(path):
                if isinstance(path, int):
                    cur().fh(path)
                else:
                    cur().find(cur().absolute(path), False)
                return None
            return prev(path, *a, **k)
        return f
    for nm in ("chown", "fchown", "lchown", "utime"):
        patch(nm, nop_path)

    def xattr(prev):
        def f(path, *a, **k):
            if ispath_or_fd(path):
                if prev is O["listxattr"] or f.__name__ == "listxattr":
                    return []
                raise err(errno.ENOTSUP, path if isinstance(path, str) else None)
            return prev(path, *a, **k)
        return f
    for nm in ("getxattr", "listxattr", "setxattr", "removexattr"):
        patch(nm, xattr)

    def p_truncate(prev):
        def truncate(path, length):
            k = ispath_or_fd(path)
            if k is None:
                return prev(path, length)
            fs = cur()
            if k == "fd":
                return fs.truncate_node(fs.fh(path).node, length, fs.fh(path).path)
            return fs.truncate_node(fs.find(fs.absolute(path)), length, fs.absolute(path))
        return truncate
    patch("truncate", p_truncate)
    patch("ftruncate", p_truncate)

    def p_sync(prev):
        def fsync(fd):
            if not isinstance(fd, int) and hasattr(fd, "fileno"):
                fd = fd.fileno()
            if fd >= FD1:
                fs = need(fd)
                h = fs.fh(fd)
                f = fs.op("fsync", h.path)
                fs.after(f)
                return None
            return prev(fd)
        return fsync
    patch("fsync", p_sync)
    patch("fdatasync", p_sync)
    patch("posix_fallocate", lambda prev: lambda fd, off, n: need(fd).op("write", need(fd).fh(fd).path) and None if fd >= FD1 else prev(fd, off, n))
    patch("getcwd", lambda prev: lambda: cur().cwd if cur() is not None and cur().cwd else prev())
    patch("getcwdb", lambda prev: lambda: os.fsencode(os.getcwd()))

    def p_chdir(prev):
        def chdir(path):
            if is_sim(path):
                fs = cur()
                p = posixpath.normpath(fs.absolute(path))
                if fs.find(p).kind != "d":
                    raise err(errno.ENOTDIR, p)
                fs.cwd = p
                return None
            if cur() is not None:
                raise core.HarnessError("chdir out of the simulation")
            return prev(path)
        return chdir
    patch("chdir", p_chdir)
    patch("isatty", lambda prev: lambda fd: False if isinstance(fd, int) and fd >= FD1 else prev(fd))
    for nm in ("set_inheritable", "set_blocking"):
        patch(nm, lambda prev: lambda fd, v: None if isinstance(fd, int) and fd >= FD1 else prev(fd, v))
    patch("get_inheritable", lambda prev: lambda fd: False if isinstance(fd, int) and fd >= FD1 else prev(fd))
    patch("get_blocking", lambda prev: lambda fd: True if isinstance(fd, int) and fd >= FD1 else prev(fd))

    def nosup(prev):
        def f(a, b, *r, **k):
            if (isinstance(a, int) and a >= FD1) or (isinstance(b, int) and b >= FD1):
                raise err(errno.ENOTSUP)
            return prev(a, b, *r, **k)
        return f
    patch("sendfile", nosup)
    patch("copy_file_range", nosup)

    def p_statvfs(prev):
        def statvfs(path):
            if ispath_or_fd(path):
                return os.statvfs_result((4096, 4096, 10 ** 6, 0 if cur().full else 10 ** 6, 0 if cur().full else 10 ** 6, 10 ** 6, 10 ** 6, 10 ** 6, 0, 255))
            return prev(path)
        return statvfs
    patch("statvfs", p_statvfs)
    for nm in ("flock", "lockf", "fcntl", "ioctl"):
        def mk(prev):
            def f(fd, *a, **k):
                n = fd if isinstance(fd, int) else fd.fileno()
                if n >= procs.FD0:
                    return 0
                return prev(fd, *a, **k)
            return f
        setattr(fcntl, nm, mk(getattr(fcntl, nm)))
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    shutil._HAS_FCOPYFILE = False


class Std:
    """Standard streams of a simulated process: stdout is a file of the simulation, so its writes can fail or be short."""

    def __init__(self, fs):
        self.fs = fs

    def __enter__(self):
        fs = self.fs
        self.old = sys.stdout, sys.stderr, sys.stdin
        self.node = fs.new("f", 0o600)
        fd = fs.next_fd
        fs.next_fd += 1
        fs.fds[fd] = FH(self.node, os.O_WRONLY, "/sim/dev/stdout")
        self.node.special = "stdout"
        t = wrap(fs, fd, "<stdout>", "w", -1, "utf-8", "strict", None, False)
        sys.stdout = t
        self.err = io.StringIO()
        sys.stderr = self.err
        sys.stdin = io.StringIO("")
        return self

    def finish(self):
        """What the interpreter does at exit; True if it worked, "crash" if the process died there."""
        try:
            sys.stdout.flush()
            return True
        except (OSError, ValueError):
            return False
        except KeyboardInterrupt:
            return False
        except SimCrash:
            return "crash"

    def __exit__(self, *a):
        sys.stdout, sys.stderr, sys.stdin = self.old
        return False

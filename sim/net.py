"""Simulated network: sockets below http.client and urllib3, a small HTTP/1.1 server model, and its faults."""
import errno
import io
import os
import socket
import urllib.parse

from . import core
from .core import in_sim

o_create_connection = socket.create_connection
o_getaddrinfo = socket.getaddrinfo
FD2 = 3_000_000


class Site:
    """Content of the simulated web: path -> bytes, or ("redirect", url), or ("status", code)."""

    def __init__(self):
        self.pages = {}


class Net:
    def __init__(self, sim):
        self.sim = sim
        sim.net = self
        self.pages = {}           # full url -> bytes | ("redirect", url) | ("status", n)
        self.faults = []          # {"at": n, "k": kind, "where": substring?}
        self.log = []             # (method, url, outcome)
        self.count = 0
        self.hit = []
        self.p_split = 0.0
        self.chunked = 0.0
        self.next_fd = FD2
        self.down = False
        self.conns = 0

    def lifetime(self):
        self.faults = []
        self.hit = []
        self.count = 0
        self.down = False

    def put(self, url, data):
        self.pages[url] = data.encode() if isinstance(data, str) else data

    def match(self, url, stage):
        """The fault for this request at this stage, if any."""
        for f in self.faults:
            if f.get("done") or f.get("where") and f["where"] not in url:
                continue
            if STAGE[f["k"]] != stage:
                continue
            return f
        return None

    def fire(self, f):
        self.hit.append(f["k"])
        self.sim.fired("net-" + f["k"])
        self.sim.trace("net-fault", f["k"])


STAGE = {"dns": "connect", "refused": "connect", "connect-timeout": "connect", "unreachable": "connect",
         "reset": "request", "eof": "request", "status": "request", "garbage": "request", "slow": "request", "short": "request", "reset-body": "request", "stall": "request",
         "short-head": "request", "badchunk": "request", "redirect-loop": "request"}


class SimSocket:
    def __init__(self, net, host, port, timeout):
        self.net = net
        self.host = host
        self.port = port
        self.timeout = timeout
        self.inbuf = bytearray()      # what the client sent
        self.out = []                 # segments still to come: (time, bytes | "eof" | "reset")
        self.rbuf = bytearray()
        self.closed = False
        self.eof = False
        self.reset = False
        self._io_refs = 0
        self.served = False
        self.fd = net.next_fd
        net.next_fd += 1
        self.family = socket.AF_INET
        self.type = socket.SOCK_STREAM
        self.proto = 0

    # -- socket API used by http.client / urllib3 / ssl-less requests
    def settimeout(self, t):
        self.timeout = t if isinstance(t, (int, float)) else None

    def gettimeout(self):
        return self.timeout

    def setblocking(self, b):
        self.timeout = None if b else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def fileno(self):
        return -1 if self.closed else self.fd

    def getpeername(self):
        return (self.host, self.port)

    def getsockname(self):
        return ("127.0.0.1", 40000)

    def shutdown(self, how):
        pass

    def detach(self):
        self.closed = True
        return self.fd

    def _decref_socketios(self):
        if self._io_refs > 0:
            self._io_refs -= 1
        if self.closed and self._io_refs <= 0:
            self._real_close()

    def _real_close(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def makefile(self, mode="r", buffering=None, *, encoding=None, errors=None, newline=None):
        rawmode = ("r" if "r" in mode else "") + ("w" if "w" in mode else "") or "r"
        raw = socket.SocketIO(self, rawmode)
        self._io_refs += 1
        if buffering == 0:
            return raw
        size = io.DEFAULT_BUFFER_SIZE if buffering in (None, -1) else buffering
        b = io.BufferedRWPair(raw, raw, size) if rawmode == "rw" else io.BufferedReader(raw, size) if rawmode == "r" else io.BufferedWriter(raw, size)
        if "b" in mode:
            return b
        return io.TextIOWrapper(b, encoding, errors, newline)

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def sendall(self, data, flags=0):
        s = self.net.sim
        if in_sim():
            s.point("net.send", cost=1e-4, intr=True)
        if self.reset:
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        self.inbuf += bytes(data)
        if not self.served and b"\r\n\r\n" in self.inbuf:
            self.served = True
            self._serve()

    def _pump(self):
        now = self.net.sim.now
        while self.out and self.out[0][0] <= now:
            t, d = self.out.pop(0)
            if d == "eof":
                self.eof = True
            elif d == "reset":
                self.reset = True
            else:
                self.rbuf += d

    def _ready(self):
        self._pump()
        return bool(self.rbuf) or self.eof or self.reset

    def recv_into(self, b, nbytes=0, flags=0):
        n = nbytes or len(b)
        d = self.recv(n)
        b[:len(d)] = d
        return len(d)

    def recv(self, n, flags=0):
        s = self.net.sim
        if core.CUR is not s:
            raise OSError(errno.EBADF, "simulation over")
        if in_sim():
            s.point("net.recv", cost=2e-5, progress=None, intr=True)
        if not self._ready():
            if not s.block(self._ready, self.timeout, "net.recv", intr=True):
                raise TimeoutError("timed out")
        if self.rbuf:
            d = bytes(self.rbuf[:n])
            if len(d) > 1 and self.net.p_split and s.choose("netsplit", 2, 1 - self.net.p_split):
                d = d[:max(1, len(d) // 3)]
                s.fired("net-split")
            del self.rbuf[:len(d)]
            return d
        if self.reset:
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        return b""

    # -- server model
    def _serve(self):
        net, s = self.net, self.net.sim
        head = bytes(self.inbuf).split(b"\r\n\r\n")[0].decode("latin-1")
        line = head.split("\r\n")[0].split(" ")
        method, path = line[0], line[1]
        url = "http://%s%s%s" % (self.host, "" if self.port == 80 else ":%d" % self.port, path) if path.startswith("/") else path
        key = urllib.parse.unquote(url)
        net.count += 1
        delay = (2e-3, 0.05, 0.4)[s.choose("netlat", 3, s.p_fast)]
        s.total_lat += delay
        f = None
        for x in net.faults:
            if x.get("done") or STAGE[x["k"]] != "request" or (x.get("where") and x["where"] not in url):
                continue
            n = x.setdefault("seen", 0)
            x["seen"] = n + 1
            if n == x.get("at", 0):
                if x.get("sticky"):
                    x["at"] = n + 1
                else:
                    x["done"] = True
                f = x
                break
        page = net.pages.get(key, net.pages.get(url))
        status, extra = 200, ""
        if page is None:
            status, body = 404, b"404: Not Found"
        elif isinstance(page, tuple) and page[0] == "redirect":
            status, body, extra = 302, b"", "Location: %s\r\n" % page[1]
        elif isinstance(page, tuple):
            status, body = page[1], b"some error page\nwith: text\n"
        else:
            body = page
        k = f["k"] if f else None
        if f:
            net.fire(f)
        net.log.append((method, url, k or status))
        s.trace("http", method, url, k or status)
        if k == "status":
            status, body = f.get("code", 503), b"class: ExpressionTool\nmessage: Service Unavailable\n"
        if k == "slow":
            delay += f.get("d", 3.0)
            s.total_lat += f.get("d", 3.0)
        if k == "stall":
            self._later(delay + f.get("d", 1000.0), "reset")
            return
        if k == "reset":
            self._later(delay, "reset")
            return
        if k == "eof":
            self._later(delay, "eof")
            return
        if k == "garbage":
            self._later(delay, b"\x00\x01\x02 nonsense\r\n\r\n")
            self._later(delay, "eof")
            return
        chunked = bool(net.chunked) and s.choose("chunked", 2, 1 - net.chunked) == 1
        if k == "badchunk":
            chunked = True
        reason = {200: "OK", 302: "Found", 404: "Not Found", 403: "Forbidden", 500: "Internal Server Error", 502: "Bad Gateway", 503: "Service Unavailable", 429: "Too Many Requests"}.get(status, "X")
        hdr = "HTTP/1.1 %d %s\r\nDate: Thu, 01 Jan 2026 00:00:00 GMT\r\nServer: sim\r\nContent-Type: text/plain; charset=utf-8\r\nCache-Control: no-store\r\n%sConnection: close\r\n" % (status, reason, extra)
        if chunked:
            hdr += "Transfer-Encoding: chunked\r\n\r\n"
            parts = [body[:len(body) // 2], body[len(body) // 2:]] if len(body) > 1 else [body]
            enc = b"".join(b"%x\r\n%s\r\n" % (len(p), p) for p in parts if p)
            if k == "badchunk":
                enc += b"zz\r\n"
            else:
                enc += b"0\r\n\r\n"
        else:
            hdr += "Content-Length: %d\r\n\r\n" % len(body)
            enc = body
        if method == "HEAD":
            enc = b""
        data = hdr.encode() + enc
        end = "eof"
        if k in ("short", "reset-body") and enc:
            data = hdr.encode() + enc[:min(len(enc) - 1, int(len(enc) * f.get("frac", 0.5)))]
            end = "reset" if k == "reset-body" else "eof"
        elif k in ("short", "reset-body"):
            pass
        if k == "short-head":
            data = hdr.encode()[:25]
            end = "reset"
        # two deliveries
        cut = len(data) // 2 if net.p_split and s.choose("netcut", 2, 1 - net.p_split) else 0
        if cut:
            self._later(delay, data[:cut])
            delay += 0.01
        self._later(delay, data[cut:])
        self._later(delay + 1e-4, end)

    def _later(self, dt, what):
        s = self.net.sim
        self.out.append((s.now + dt, what))
        s.at(dt, lambda: None)


def connect(host, port, timeout, sockopts=None):
    s = core.CUR
    net = s.net
    if net is None:
        raise socket.gaierror(socket.EAI_NONAME, "Name or service not known")
    s.point("net.connect", cost=1e-3, intr=True)
    url = "http://%s:%s" % (host, port)
    net.conns += 1
    f = None
    for x in net.faults:
        if x.get("done") or STAGE[x["k"]] != "connect" or (x.get("where") and x["where"] not in url):
            continue
        n = x.setdefault("seen", 0)
        x["seen"] = n + 1
        if n == x.get("at", 0):
            if x.get("sticky"):
                x["at"] = n + 1
            else:
                x["done"] = True
            f = x
            break
    known = any(urllib.parse.urlparse(u).hostname == host for u in net.pages)
    if f is not None:
        net.fire(f)
        k = f["k"]
        net.log.append(("CONNECT", url, k))
        if k == "dns":
            raise socket.gaierror(socket.EAI_AGAIN, "Temporary failure in name resolution")
        if k == "refused":
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        if k == "unreachable":
            raise OSError(errno.ENETUNREACH, "Network is unreachable")
        if k == "connect-timeout":
            t = timeout if isinstance(timeout, (int, float)) else 130.0
            s.sleep(min(t, 130.0))
            raise TimeoutError(errno.ETIMEDOUT, "timed out")
    if not known:
        raise socket.gaierror(socket.EAI_NONAME, "Name or service not known")
    return SimSocket(net, host, port, timeout if isinstance(timeout, (int, float)) else None)


_inst = False


def install():
    global _inst
    if _inst:
        return
    _inst = True

    def create_connection(address, timeout=socket._GLOBAL_DEFAULT_TIMEOUT, source_address=None, **k):
        if in_sim():
            return connect(address[0], address[1], timeout)
        return o_create_connection(address, timeout, source_address, **k)
    socket.create_connection = create_connection

    def getaddrinfo(host, port, *a, **k):
        if in_sim():
            return [(socket.AF_INET, socket.SOCK_STREAM, 6, "", ("10.0.0.1", port))]
        return o_getaddrinfo(host, port, *a, **k)
    socket.getaddrinfo = getaddrinfo
    import urllib3.util.connection as uc
    o_uc = uc.create_connection

    def u_create(address, timeout=uc._DEFAULT_TIMEOUT, source_address=None, socket_options=None):
        if in_sim():
            return connect(address[0], address[1], timeout if isinstance(timeout, (int, float)) else None)
        return o_uc(address, timeout, source_address, socket_options)
    uc.create_connection = u_create
    import ssl
    o_wrap = ssl.SSLContext.wrap_socket

    def wrap_socket(self, sock, *a, **k):
        if isinstance(sock, SimSocket):
            return sock
        return o_wrap(self, sock, *a, **k)
    ssl.SSLContext.wrap_socket = wrap_socket

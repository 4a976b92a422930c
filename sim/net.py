"""
Simulated network below the real requests / urllib3 / http.client stack:
``socket.getaddrinfo``, ``socket.socket`` and ``ssl.SSLContext.wrap_socket`` are
replaced.  Servers are scripted byte by byte; waiting is virtual time.

An *attempt* (one name resolution with what follows) is described by a dict

``dns``      "ok" | "fail" | "empty" and ``dns_delay``
``addrs``    number of addresses
``connect``  per address, cyclic: "ok" | "refused" | "blackhole" | "unreach" | "reset"
``tls``      "ok" | "cert" | "stall" | "eof" | "reset"
``answer``   dict, see :func:`wire`
"""
import errno
import gzip
import io
import socket
import ssl
import time

from sim import disk
from sim.clock import CLOCK


def op(name, what=""):
    p = disk.proc()
    if p is not None:
        p.step(name, what)


def wait(dt, timeout):
    """Lets virtual time pass until something arrives; False on a time-out."""
    if timeout is not None and dt > timeout:
        time.sleep(timeout)
        return False
    if dt == float("inf"):
        raise Hang()
    if dt > 0:
        time.sleep(dt)
    return True


class Hang(BaseException):
    """Would wait for ever."""


def wire(a, body):
    """Segments [(delay, bytes)] and how the connection ends."""
    enc = a.get("enc", "plain")
    if a.get("status") in (204, 304):
        body, enc = b"", "plain"
    if a.get("head") == "garbage":
        raw = b"\x16\x03\x01\x02\x00\x01\x00 this is not http\r\n\r\n" + body
    elif a.get("head") == "huge":
        raw = b"HTTP/1.1 200 OK\r\nX-Pad: " + b"a" * 70000 + b"\r\n\r\n"
    elif a.get("head") == "many":
        raw = b"HTTP/1.1 200 OK\r\n" + b"".join(b"X-%d: y\r\n" % i for i in range(200)) + b"\r\n"
    elif a.get("head") == "nothing":
        raw = b""
    else:
        head = ["HTTP/1.1 %d %s" % (a.get("status", 200), "Whatever"), "Server: sim"]
        if a.get("ctype"):
            head.append("Content-Type: " + a["ctype"])
        if a.get("location"):
            head.append("Location: " + a["location"])
        if enc == "gzip":
            body = gzip.compress(body, mtime=0)
            head.append("Content-Encoding: gzip")
        elif enc == "badgzip":
            head.append("Content-Encoding: gzip")
        if enc == "chunked":
            n = max(1, len(body) // 3)
            parts = [body[i:i + n] for i in range(0, len(body), n)]
            body = b"".join(b"%x\r\n%s\r\n" % (len(x), x) for x in parts) + b"0\r\n\r\n"
            head.append("Transfer-Encoding: chunked")
        elif enc != "close":
            head.append("Content-Length: %d" % (len(body) + a.get("more", 0)))
        head.append("Connection: " + a.get("conn", "close"))
        raw = "\r\n".join(head).encode() + b"\r\n\r\n"
        body = body[:int(len(body) * a["cut"])] if a.get("cut") is not None else body
        raw += body
    n = max(1, a.get("segs", 1))
    size = max(1, -(-len(raw) // n))
    segs = []
    for k, i in enumerate(range(0, len(raw), size)):
        d = a.get("first", 0.01) if k == 0 else a.get("pace", 0.0)
        segs.append((d, raw[i:i + size]))
    return segs, a.get("end", "close")


class Network:
    """``script(host, index)`` gives the attempt; ``respond(attempt, request)`` gives (answer dict, body)."""

    def __init__(self, attempts, body):
        self.attempts = attempts        # callable(process) -> attempt
        self.body = body                # callable(attempt, host, path) -> bytes
        self.log = []                   # (process, "lookup"/"request", host, path)
        self.by_ip = {}
        self.real = {}
        a, self._b = socket.socketpair()
        self.fd = a
        self.listeners = 0

    def install(self):
        net = self
        self.real = {"gai": socket.getaddrinfo, "socket": socket.socket, "wrap": ssl.SSLContext.wrap_socket,
                     "lvl": ssl.SSLContext.load_verify_locations, "def": ssl.SSLContext.load_default_certs}

        class Socket(FakeSocket):
            network = net

        socket.getaddrinfo = self.getaddrinfo
        socket.socket = Socket
        ssl.SSLContext.wrap_socket = lambda ctx, sock, *a, **k: sock.handshake(k.get("server_hostname"))
        ssl.SSLContext.load_verify_locations = lambda *a, **k: None
        ssl.SSLContext.load_default_certs = lambda *a, **k: None

    def uninstall(self):
        socket.getaddrinfo, socket.socket = self.real["gai"], self.real["socket"]
        ssl.SSLContext.wrap_socket = self.real["wrap"]
        ssl.SSLContext.load_verify_locations = self.real["lvl"]
        ssl.SSLContext.load_default_certs = self.real["def"]
        self.fd.close()
        self._b.close()

    def getaddrinfo(self, host, port, *args, **kw):
        op("dns", host)
        p = disk.proc()
        a = self.attempts(p, host)
        self.log.append((p, "lookup", host, a))
        if a.get("dns_delay"):
            if a["dns_delay"] == float("inf"):
                raise Hang()
            time.sleep(a["dns_delay"])
        if a.get("dns", "ok") == "fail":
            p.fire("dns-failure")
            raise socket.gaierror(socket.EAI_AGAIN, "Temporary failure in name resolution")
        if a.get("dns") == "empty":
            p.fire("dns-failure")
            return []
        res = []
        for k in range(a.get("addrs", 1)):
            ip = "10.%d.%d.%d" % (len(self.by_ip) // 200 % 200, len(self.by_ip) % 200, k)
            self.by_ip[ip] = (host, a, k)
            res.append((socket.AF_INET, socket.SOCK_STREAM, 6, "", (ip, port)))
        return res


class _Raw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock
        sock.files += 1

    def readable(self):
        return True

    def readinto(self, b):
        return self.sock.recv_into(b)

    def close(self):
        if not self.closed:
            self.sock.files -= 1
        super().close()


class FakeSocket:
    network = None

    def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None):  # noqa: A002
        self.family, self.type, self.proto = family, type, proto
        self.timeout = socket.getdefaulttimeout()
        self.segs, self.end, self.buf = [], None, b""
        self.request, self.files, self.closed = b"", 0, False
        self.a = self.host = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def setsockopt(self, *a):
        pass

    def bind(self, addr):
        pass

    def settimeout(self, t):
        if t is not None and t < 0:
            raise ValueError("Timeout value out of range")
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def fileno(self):
        return self.network.fd.fileno()

    def getpeername(self):
        return ("10.0.0.1", 443)

    def getpeercert(self, binary_form=False):
        return b"" if binary_form else {"subjectAltName": (("DNS", self.host),)}

    def version(self):
        return "TLSv1.3"

    def selected_alpn_protocol(self):
        return None

    def cipher(self):
        return ("sim", "TLSv1.3", 256)

    def connect(self, addr):
        op("connect", addr[0])
        if addr[0] not in self.network.by_ip:
            raise OSError(errno.ENETUNREACH, "Network is unreachable")
        self.host, self.a, k = self.network.by_ip[addr[0]]
        how = self.a.get("connect", ["ok"])
        how = how[k % len(how)]
        p = disk.proc()
        if how != "ok":
            p.fire("connect-" + how)
        if how == "blackhole":
            if not wait(127.0, self.timeout):
                raise TimeoutError("timed out")
            raise TimeoutError(errno.ETIMEDOUT, "Connection timed out")
        if not wait(self.a.get("connect_delay", 0.01), self.timeout):
            p.fire("connect-slow")
            raise TimeoutError("timed out")
        if how == "refused":
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        if how == "unreach":
            raise OSError(errno.ENETUNREACH, "Network is unreachable")
        if how == "reset":
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")

    def handshake(self, name):
        op("tls", name or "")
        how = self.a.get("tls", "ok")
        p = disk.proc()
        if how != "ok":
            p.fire("tls-" + how)
        if how == "cert":
            raise ssl.SSLCertVerificationError(1, "[SSL: CERTIFICATE_VERIFY_FAILED] certificate verify failed")
        if how == "eof":
            raise ssl.SSLEOFError(8, "EOF occurred in violation of protocol")
        if how == "reset":
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        if how == "stall":
            if not wait(float("inf"), self.timeout):
                raise TimeoutError("_ssl.c:983: The handshake operation timed out")
        return self

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def sendall(self, data, flags=0):
        op("send", self.host or "")
        if self.closed:
            raise OSError(errno.EBADF, "Bad file descriptor")
        self.request += bytes(data)
        if b"\r\n\r\n" in self.request:
            head, self.request = self.request.split(b"\r\n\r\n", 1)
            path = head.split(b" ")[1].decode("latin-1")
            p = disk.proc()
            self.network.log.append((p, "request", self.host, path))
            ans = self.a.get("answer", {})
            for k in ("status", "cut", "head", "enc", "end", "shape", "more"):
                if ans.get(k) not in (None, 200, "plain", "ok", "close", "good", 0):
                    p.fire("answer-%s" % k if k != "status" else "answer-status")
            if ans.get("first", 0) > 1 or ans.get("pace", 0) > 1:
                p.fire("answer-slow")
            self.segs, self.end = wire(ans, self.network.body(self.a, self.host, path, head))

    def recv_into(self, b, nbytes=0, flags=0):
        op("recv", self.host or "")
        b = memoryview(b).cast("B")
        n = min(nbytes or len(b), len(b))
        if not self.buf:
            if self.segs:
                d, data = self.segs[0]
                if not wait(d, self.timeout):
                    # what has been waited for counts
                    self.segs[0] = (d - self.timeout, data)
                    raise TimeoutError("The read operation timed out")
                self.segs.pop(0)
                self.buf = data
            elif self.end == "close" or self.end is None:
                return 0
            elif self.end == "reset":
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            else:
                if not wait(float("inf"), self.timeout):
                    raise TimeoutError("The read operation timed out")
        k = min(n, len(self.buf))
        b[:k] = self.buf[:k]
        self.buf = self.buf[k:]
        return k

    def recv(self, n, flags=0):
        b = bytearray(n)
        return bytes(b[:self.recv_into(b)])

    def makefile(self, mode="r", buffering=None, **kw):
        assert mode in ("r", "rb")
        return io.BufferedReader(_Raw(self))

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True

    def detach(self):
        return -1

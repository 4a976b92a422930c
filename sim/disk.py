"""
Simulated storage: a scratch directory on the real file system behind an
interposed ``os`` / ``io`` layer.

Every operation on a path below the scratch directory is an *operation* of the
simulated process that performs it: it may fail with an error number, be
performed partly (torn or short write), or be the point at which the process
dies (:class:`Crash`; everything the process tries afterwards dies as well, and
what it had buffered is lost).  Operations are also scheduling points.  Files
get the modification time of the virtual clock.
"""
import errno
import io
import os
import shutil
import tempfile
import _thread

from sim import sched
from sim.clock import CLOCK

_ident = _thread.get_ident


class Crash(BaseException):
    """The simulated process dies here."""


class Process:
    """Fault plan and record of one simulated process."""

    def __init__(self, name="", faults=()):
        self.name = name
        self.faults = [list(f) for f in faults]
        self.ops = 0
        self.dead = False
        self.trace = []          # (operation, base name)
        self.fired = {}
        self.written = set()
        self.silent = False

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def step(self, op, what=""):
        """One operation; returns a fault that changes how it is performed (or None)."""
        if self.dead:
            raise Crash(self.name)
        self.ops += 1
        self.trace.append((op, what))
        t = sched.CUR.get(_ident())
        if t is not None:
            t.sim.point(t)
        for f in self.faults:
            if f[0] == "crash" and self.ops == f[1]:
                self.fire("crash")
                self.dead = True
                if op == "write":
                    return ("torn", f[2])
                raise Crash(self.name)
            if f[0] == "err" and self.ops == f[1]:
                return self.error(op, f[2], what, f)
            if f[0] == "class" and op in f[1].split(","):
                return self.error(op, f[2], what, f)
        return None

    def error(self, op, name, what, f):
        if op in ("dns", "connect", "tls", "send", "recv"):
            return None          # the network has its own faults
        self.fire("io-%s-%s" % (op, name))
        if op == "write" and len(f) > 3:
            return ("partly", f[3], name)
        raise OSError(getattr(errno, name), os.strerror(getattr(errno, name)), what)


PROC = {}       # thread ident -> Process


def proc():
    return PROC.get(_ident())


class _File(io.FileIO):
    """Raw file with torn and failing writes."""

    def setup(self, disk, path):
        self._disk, self._path, self._proc = disk, path, proc()
        return self

    def write(self, data):
        p = self._proc
        if p is None:
            return super().write(data)
        data = bytes(data)
        f = p.step("write", os.path.basename(self._path))
        p.written.add(self._path)
        if f is None:
            n = super().write(data)
            self._disk.touch(self._path)
            return n
        super().write(data[:int(len(data) * f[1])])
        self._disk.touch(self._path)
        if f[0] == "torn":
            raise Crash(p.name)
        raise OSError(getattr(errno, f[2]), os.strerror(getattr(errno, f[2])), self._path)

    def _rd(self):
        p = self._proc
        if p is not None:
            p.step("read", os.path.basename(self._path))

    def readinto(self, b):
        self._rd()
        return super().readinto(b)

    def readall(self):
        self._rd()
        return super().readall()

    def read(self, n=-1):
        self._rd()
        return super().read(n)

    def truncate(self, n=None):
        p = self._proc
        if p is not None:
            p.step("write", os.path.basename(self._path))
        res = super().truncate(n)
        self._disk.touch(self._path)
        return res


class Disk:
    NAMES = {"stat": "stat", "lstat": "stat", "scandir": "scan", "listdir": "scan", "mkdir": "mkdir", "unlink": "unlink",
             "remove": "unlink", "rmdir": "unlink", "rename": "rename", "replace": "rename", "link": "rename", "symlink": "rename",
             "utime": "utime", "chmod": "utime", "access": "stat", "truncate": "write"}

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="verif-home-", dir="/tmp")
        self.real = {}
        self.fds = {}

    def touch(self, path):
        """Modification time of a just written file (virtual clock)."""
        ns = int(CLOCK.wall * 1e6) * 1000 - 1000
        try:
            self.real.get("utime", os.utime)(path, ns=(ns, ns))
        except OSError:
            pass

    def mine(self, path):
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        path = os.path.normpath(path)
        return path if path == self.root or path.startswith(self.root + os.sep) else None

    def install(self):
        for name, op in self.NAMES.items():
            self.real[name] = getattr(os, name)
            setattr(os, name, self._wrap(name, op, self.real[name]))
        self.real["open"], self.real["io.open"] = os.open, io.open
        os.open = self._os_open
        io.open = self._io_open
        import builtins
        builtins.open = self._io_open
        for name in ("write", "fsync", "close"):
            self.real[name] = getattr(os, name)
        os.write, os.fsync, os.close = self._os_write, self._os_fsync, self._os_close

    def uninstall(self):
        import builtins
        for name in (*self.NAMES, "write", "fsync", "close", "open"):
            setattr(os, name, self.real[name])
        io.open = builtins.open = self.real["io.open"]
        PROC.clear()
        shutil.rmtree(self.root, ignore_errors=True)

    def _wrap(self, name, op, real):
        def call(path=".", *args, **kw):
            p = proc()
            if p is not None:
                mine = self.mine(path)
                if mine is not None:
                    p.step(op, os.path.basename(mine))
            return real(path, *args, **kw)
        call.__name__ = name
        return call

    def _os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = proc()
        mine = self.mine(path) if p is not None else None
        if mine is None:
            return self.real["open"](path, flags, mode, dir_fd=dir_fd)
        p.step("create" if flags & (os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_RDWR) else "open", os.path.basename(mine))
        fd = self.real["open"](path, flags, mode)
        self.fds[fd] = mine
        if flags & (os.O_CREAT | os.O_TRUNC):
            self.touch(mine)
        return fd

    def _os_close(self, fd):
        self.fds.pop(fd, None)
        return self.real["close"](fd)

    def _os_write(self, fd, data):
        p = proc()
        if p is None or fd not in self.fds:
            return self.real["write"](fd, data)
        f = p.step("write", os.path.basename(self.fds[fd]))
        p.written.add(self.fds[fd])
        n = self.real["write"](fd, data if f is None else bytes(data)[:int(len(data) * f[1])])
        self.touch(self.fds[fd])
        if f is None:
            return n
        if f[0] == "torn":
            raise Crash(p.name)
        raise OSError(getattr(errno, f[2]), os.strerror(getattr(errno, f[2])))

    def _os_fsync(self, fd):
        p = proc()
        if p is not None and fd in self.fds:
            p.step("fsync", os.path.basename(self.fds[fd]))
            return None
        return self.real["fsync"](fd)

    def _io_open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        p = proc()
        path = None
        if p is not None:
            path = self.fds.get(file) if isinstance(file, int) else self.mine(file)
        if path is None:
            return self.real["io.open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        write = any(c in mode for c in "wax+")
        if not isinstance(file, int) and opener is None:
            p.step("create" if write else "open", os.path.basename(path))
        raw = _File(file, "".join(c for c in mode if c in "rwax+"), closefd, opener).setup(self, path)
        if "w" in mode or "x" in mode:
            self.touch(path)
        if buffering == 0:
            return raw
        size = io.DEFAULT_BUFFER_SIZE
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif write:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)

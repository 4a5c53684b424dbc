"""File, clock, pid and randomness seams.

Files are real files below one scratch directory; every operation on them by a
simulated task goes through the functions below, which make it a decision point,
may inject a fault and stamp modification times with the simulated clock.
Anything outside the scratch directory, and anything done by the harness itself,
is passed through untouched.
"""

import _io
import builtins
import errno
import io
import os
import random
import stat as _stat
import tempfile
import time
import uuid

from .core import Sim, SimCrash, oserr

R_open = io.open
R = {
    n: getattr(os, n)
    for n in (
        "open read write close stat lstat fstat replace rename unlink remove utime fsync "
        "fdatasync listdir scandir mkdir rmdir truncate ftruncate link symlink urandom "
        "getpid access dup"
    ).split()
    if hasattr(os, n)
}
R_time = {n: getattr(time, n) for n in ("time", "time_ns", "monotonic", "monotonic_ns",
                                        "perf_counter", "sleep")}

FS = None  # the FileSim of this process


class FileSim:
    def __init__(self, sim, root, cfg):
        self.sim = sim
        self.root = os.path.realpath(root)
        self.prefix = self.root + os.sep
        self.cfg = cfg
        self.bufsize = cfg.get("bufsize", 4096)
        self.fds = {}  # fd -> (path, mode)
        self.on_mutate = None  # called (quietly) after a path changed
        self.classify = lambda p: "other"
        self.rates = cfg.get("rates", {})
        self.prng = random.Random("urandom:%s" % (sim.seed,))
        self.sticky = {}
        global FS
        FS = self

    # -- helpers

    def path(self, p):
        """Absolute path if below the scratch root, else None."""
        if isinstance(p, int):
            e = self.fds.get(p)
            return e[0] if e else None
        try:
            p = os.fspath(p)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        a = os.path.normpath(os.path.join(os.getcwd(), p))
        if a == self.root or a.startswith(self.prefix):
            return a
        return None

    def rel(self, p):
        return p[len(self.prefix):] if p.startswith(self.prefix) else p

    def active(self):
        sim = self.sim
        return sim.active()

    def choices(self, op, cls):
        """Fault choices configured for an operation on a path class."""
        return self.rates.get(op + ":" + cls, ())

    def name(self, p):
        """Name of a path for logs, with unique parts removed."""
        return self.rel(p)

    def io(self, t, op, p):
        if t.dead:
            raise SimCrash()
        cls = self.classify(p)
        f = self.sim.io(t, op, self.name(p), () if t.nofaults else self.choices(op, cls))
        if f is not None:
            t.op_faults[-1]["cls"] = cls
            if f["kind"] == "crash":
                t.dead = True
                raise SimCrash()
            if f["kind"] == "crash_after":
                return f
            if f["kind"] in ("EIO", "ENOSPC", "EACCES", "ENOENT", "EMFILE", "EINTR", "EROFS", "ENOMEM"):
                raise oserr(f["kind"], p)
        return f

    def after(self, t, f):
        if f is not None and f["kind"] == "crash_after":
            t.dead = True
            raise SimCrash()

    def stamp(self, target):
        ns = self.sim.now_ns
        R["utime"](target, ns=(ns, ns))

    def mutated(self, p, how):
        if self.on_mutate is not None:
            with self.sim.quiet():
                self.on_mutate(p, how)

    # -- operations

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        t = self.active()
        if t is None:
            return R_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        p = self.path(file)
        if p is None and opener is not None and not isinstance(file, int):
            p = None
        if p is None:
            if isinstance(file, int) or opener is None:
                return R_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            # tempfile.NamedTemporaryFile passes the directory and an opener
            return R_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        m = set(mode)
        binary = "b" in m
        writing = bool(m & set("wax+"))
        if isinstance(file, int):
            fd = file
        elif opener is not None:
            fd = opener(file, os.O_RDWR if writing else os.O_RDONLY)
            p = self.path(fd) or p
        else:
            flags = os.O_CLOEXEC
            if "+" in m:
                flags |= os.O_RDWR
            elif writing:
                flags |= os.O_WRONLY
            if "w" in m:
                flags |= os.O_CREAT | os.O_TRUNC
            elif "x" in m:
                flags |= os.O_CREAT | os.O_EXCL
            elif "a" in m:
                flags |= os.O_CREAT | os.O_APPEND
            fd = self.os_open(file, flags, 0o666)
            if _stat.S_ISDIR(R["fstat"](fd).st_mode):
                self._close_fd(fd)
                raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
        raw = SimRaw(self, fd, p, "r" in m or "+" in m, writing, closefd)
        raw.name = file if not isinstance(file, int) else fd
        if "a" in m:
            raw.seek(0, 2)
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = self.bufsize if buffering in (-1, 1) else buffering
        if "+" in m:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        txt = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
        txt.mode = mode
        return txt

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        t = self.active()
        p = self.path(path) if dir_fd is None else None
        if t is None or p is None:
            return R["open"](path, flags, mode, dir_fd=dir_fd)
        wr = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        f = self.io(t, "openw" if wr else "openr", p)
        existed = os.path.lexists(p) if wr else True
        fd = R["open"](p, flags, mode)
        self.fds[fd] = (p, flags)
        if wr and (flags & os.O_TRUNC or not existed):
            self.stamp(fd)
            self.mutated(p, "open")
        self.after(t, f)
        return fd

    def _close_fd(self, fd):
        self.fds.pop(fd, None)
        R["close"](fd)

    def os_close(self, fd):
        t = self.active()
        if t is None or fd not in self.fds:
            self.fds.pop(fd, None)
            return R["close"](fd)
        p, flags = self.fds[fd]
        try:
            self.io(t, "close", p)
        finally:
            self._close_fd(fd)

    def do_write(self, fd, p, data):
        """One write system call: may be short, fail, or be the last one."""
        t = self.active()
        data = bytes(data)
        if t is None:
            return R["write"](fd, data)
        f = self.io_write(t, p, data)
        n = len(data)
        if f is not None and n > 1 and f["kind"] in ("short", "torn", "ENOSPC_part"):
            n = max(1, int(n * f["x"]))
        done = 0
        while done < n:
            done += R["write"](fd, data[done:n])
        self.stamp(fd)
        self.mutated(p, "write")
        if f is not None:
            if f["kind"] == "torn" or f["kind"] == "crash_after":
                t.dead = True
                raise SimCrash()
            if f["kind"] == "ENOSPC_part":
                # the disk stays full for the rest of the operation
                self.sticky[(t.id, t.op)] = "ENOSPC"
                return n
        return n

    def io_write(self, t, p, data):
        if self.sticky.get((t.id, t.op)):
            if t.dead:
                raise SimCrash()
            self.sim.point(t, "write")
            t.op_faults.append({"kind": "ENOSPC", "on": "write", "path": self.name(p),
                                "cls": self.classify(p)})
            raise oserr("ENOSPC", p)
        return self.io(t, "write", p)

    def os_write(self, fd, data):
        if self.active() is None or fd not in self.fds:
            return R["write"](fd, data)
        return self.do_write(fd, self.fds[fd][0], data)

    def do_read(self, fd, p, n):
        t = self.active()
        if t is None:
            return R["read"](fd, n)
        f = self.io(t, "read", p)
        if f is not None and f["kind"] == "short" and n > 1:
            n = max(1, int(min(n, 512) * f["x"]))
        return R["read"](fd, n)

    def os_read(self, fd, n):
        if self.active() is None or fd not in self.fds:
            return R["read"](fd, n)
        return self.do_read(fd, self.fds[fd][0], n)

    def _stat_like(self, name):
        real = R[name]

        def fn(path, *a, **k):
            t = self.active()
            if t is not None and not isinstance(path, int) and k.get("dir_fd") is None:
                p = self.path(path)
                if p is not None:
                    self.io(t, "stat", p)
            elif t is not None and isinstance(path, int) and path in self.fds:
                self.io(t, "fstat", self.fds[path][0])
            return real(path, *a, **k)

        return fn

    def _replace(self, name):
        real = R[name]

        def fn(src, dst, *a, **k):
            t = self.active()
            ps, pd = self.path(src), self.path(dst)
            if t is None or pd is None:
                return real(src, dst, *a, **k)
            f = self.io(t, "replace", pd)
            real(src, dst, *a, **k)
            if ps:
                self.mutated(ps, "gone")
            self.mutated(pd, "replace")
            self.after(t, f)

        return fn

    def _unlink(self, name):
        real = R[name]

        def fn(path, *a, **k):
            t = self.active()
            p = self.path(path)
            if t is None or p is None or k.get("dir_fd") is not None:
                return real(path, *a, **k)
            f = self.io(t, "unlink", p)
            real(path, *a, **k)
            self.mutated(p, "unlink")
            self.after(t, f)

        return fn

    def utime(self, path, times=None, *, ns=None, **k):
        t = self.active()
        p = self.path(path)
        if t is None or p is None:
            if ns is not None:
                return R["utime"](path, ns=ns, **k)
            return R["utime"](path, times, **k)
        f = self.io(t, "utime", p)
        if ns is None and times is None:
            ns = (self.sim.now_ns, self.sim.now_ns)
        if ns is not None:
            R["utime"](path, ns=ns, **k)
        else:
            R["utime"](path, times, **k)
        self.mutated(p, "utime")
        self.after(t, f)

    def _simple(self, name, op):
        real = R[name]

        def fn(path, *a, **k):
            t = self.active()
            p = self.path(path)
            if t is None or p is None:
                return real(path, *a, **k)
            f = self.io(t, op, p)
            r = real(path, *a, **k)
            if op in ("truncate", "mkdir", "rmdir", "ftruncate"):
                if "truncate" in op:
                    self.stamp(path)
                self.mutated(p, op)
            self.after(t, f)
            return r

        return fn

    def _link(self, name):
        real = R[name]

        def fn(src, dst, *a, **k):
            t = self.active()
            pd = self.path(dst)
            if t is None or pd is None:
                return real(src, dst, *a, **k)
            f = self.io(t, "link", pd)
            real(src, dst, *a, **k)
            self.mutated(pd, "link")
            self.after(t, f)

        return fn

    # -- clock, pid, randomness

    def time_ns(self):
        return self.sim.now_ns

    def sleep(self, s):
        t = self.active()
        if t is None:
            return R_time["sleep"](s)
        self.sim.block(t, "sleep%d" % t.id, self.sim.now_ns + int(s * 1e9))

    def urandom(self, n):
        if self.sim.task() is None:
            return R["urandom"](n)
        return self.prng.randbytes(n)

    def getpid(self):
        t = self.sim.task()
        return R["getpid"]() if t is None else t.pid

    # -- installation

    def install(self):
        builtins.open = self.open
        io.open = self.open
        _io.open = self.open
        os.open = self.os_open
        os.close = self.os_close
        os.read = self.os_read
        os.write = self.os_write
        os.stat = self._stat_like("stat")
        os.lstat = self._stat_like("lstat")
        os.fstat = self._stat_like("fstat")
        os.replace = self._replace("replace")
        os.rename = self._replace("rename")
        os.unlink = self._unlink("unlink")
        os.remove = self._unlink("remove")
        os.utime = self.utime
        os.fsync = self._simple("fsync", "fsync")
        os.fdatasync = self._simple("fdatasync", "fsync")
        os.truncate = self._simple("truncate", "truncate")
        os.ftruncate = self._simple("ftruncate", "ftruncate")
        os.mkdir = self._simple("mkdir", "mkdir")
        os.rmdir = self._simple("rmdir", "rmdir")
        os.link = self._link("link")
        os.symlink = self._link("symlink")
        os.urandom = self.urandom
        os.getpid = self.getpid
        time.time = lambda: self.sim.now_ns / 1e9
        time.time_ns = self.time_ns
        time.monotonic = lambda: self.sim.now_ns / 1e9
        time.monotonic_ns = self.time_ns
        time.perf_counter = lambda: self.sim.now_ns / 1e9
        time.sleep = self.sleep
        uuid._generate_time_safe = None
        uuid._UuidCreate = None
        tempfile._name_sequence = _Names(self)
        os.makedirs(os.path.join(self.root, "tmp"), exist_ok=True)
        tempfile.tempdir = os.path.join(self.root, "tmp")
        random.seed("random:%s" % (self.sim.seed,))


class _Names:
    def __init__(self, fs):
        self.fs = fs

    def __iter__(self):
        return self

    def __next__(self):
        return "%012x" % self.fs.prng.getrandbits(48)


class SimRaw(io.RawIOBase):
    """Raw file whose every system call goes through the simulator."""

    def __init__(self, fs, fd, path, reading, writing, closefd):
        super().__init__()
        self._fs, self._fd, self._p = fs, fd, path
        self._r, self._w, self._closefd = reading, writing, closefd

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        data = self._fs.do_read(self._fd, self._p, len(b))
        b[: len(data)] = data
        return len(data)

    def readall(self):
        out = []
        while True:
            d = self._fs.do_read(self._fd, self._p, max(self._fs.bufsize, 256))
            if not d:
                return b"".join(out)
            out.append(d)

    def write(self, b):
        return self._fs.do_write(self._fd, self._p, b)

    def seek(self, off, whence=0):
        return os.lseek(self._fd, off, whence)

    def tell(self):
        return os.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        os.ftruncate(self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        fd, self._fd = self._fd, -1
        try:
            super().close()
        finally:
            if self._closefd and fd >= 0:
                try:
                    t = self._fs.active()
                    if t is not None and fd in self._fs.fds:
                        self._fs.io(t, "close", self._p)
                finally:
                    self._fs.fds.pop(fd, None)
                    R["close"](fd)

    def __del__(self):
        # never a decision point: collection time is not part of the schedule
        t = self._fs.sim.task()
        if t is not None:
            t.quiet += 1
        try:
            if not self.closed:
                self.close()
        except BaseException:
            pass
        finally:
            if t is not None:
                t.quiet -= 1

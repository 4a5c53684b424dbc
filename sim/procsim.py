"""External program seam: subprocess.Popen (used by os.popen, check_output, run).

Programs are identified by what they are asked to do, not by exact command
strings; answers come from a handler installed by the world.
"""

import io
import os
import shlex
import subprocess

from .core import HarnessError

R_Popen = subprocess.Popen
PROC = None
LIVE = []  # the processes started


def identify(args, shell, executable=None):
    """-> (tool, argv-ish list)"""
    if isinstance(args, (list, tuple)):
        a = [os.fspath(x) if not isinstance(x, bytes) else os.fsdecode(x) for x in args]
        if shell or (len(a) >= 3 and os.path.basename(a[0]) in ("sh", "bash") and a[1] == "-c"):
            text = a[0] if shell else a[2]
        else:
            text = " ".join(shlex.quote(x) for x in a)
            tool = os.path.basename(a[0])
            return tool, a
    else:
        text = os.fsdecode(args) if isinstance(args, bytes) else os.fspath(args)
    for tool in ("ldconfig", "ldd", "gcc", "clang", "cc", "objdump", "ld", "readelf", "file", "which", "type"):
        words = text.replace(";", " ").replace("|", " ").split()
        if any(os.path.basename(w) == tool or w.endswith("=" + tool) for w in words):
            return ("gcc" if tool in ("cc", "clang") else tool), words
    return "unknown", [text]


class SimPopen:
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None,
                 stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None,
                 env=None, universal_newlines=None, startupinfo=None, creationflags=0,
                 restore_signals=True, start_new_session=False, pass_fds=(), *,
                 text=None, encoding=None, errors=None, **kw):
        self.args = args
        self.returncode = None
        self.stdin = self.stdout = self.stderr = None
        tool, argv = identify(args, shell)
        merge = stderr == subprocess.STDOUT
        rc, out, err = PROC(tool, argv, shell or tool == "gcc", args)  # may raise OSError
        if isinstance(args, str) and "2>&1" in args:
            out, err = out + err, b""
        if merge:
            out, err = out + err, b""
        self._rc = rc
        istext = bool(text or universal_newlines or encoding or errors)

        def mk(b):
            s = io.BytesIO(b)
            if istext:
                return io.TextIOWrapper(s, encoding or "utf-8", errors)
            return s

        self._out = self._err = None
        if stdout == subprocess.PIPE:
            self.stdout = mk(out)
        if stderr == subprocess.PIPE:
            self.stderr = mk(err)
        if stdin == subprocess.PIPE:
            self.stdin = mk(b"")
        self.pid = 50000
        LIVE.append(self)

    def finished(self):
        """Was it waited for, and are its pipes closed?"""
        return self.returncode is not None and all(
            f is None or f.closed for f in (self.stdin, self.stdout, self.stderr))

    def poll(self):
        if self.returncode is None:
            self.returncode = self._rc
        return self.returncode

    def wait(self, timeout=None):
        return self.poll()

    def communicate(self, input=None, timeout=None):
        o = self.stdout.read() if self.stdout else None
        e = self.stderr.read() if self.stderr else None
        for f in (self.stdout, self.stderr, self.stdin):
            if f:
                f.close()
        self.poll()
        return o, e

    def kill(self):
        pass

    terminate = kill

    def send_signal(self, s):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for f in (self.stdout, self.stderr, self.stdin):
            if f:
                f.close()
        self.wait()

    def __class_getitem__(cls, x):
        return cls


def install(handler):
    global PROC
    PROC = handler
    subprocess.Popen = SimPopen

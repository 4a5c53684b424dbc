"""C16: operations leave nothing behind."""

import gc
import locale
import logging
import os
import random
import signal
import sys
import tempfile
import threading
import warnings
import weakref

from .. import calls as K
from .. import core, fsim, runner
from .. import libworld as L
from .. import parsework as W
from .. import procsim
from ..core import SimAbort, Violation

ID = "C16"
RULE = ("seeded rounds of 3-8 operations (building parsers with and without cache, opening "
        "libraries by path, by name and with headers, lookups, calls, arrays, searches) are "
        "repeated four times while header and cache files, temporary files and external programs "
        "fail, headers are missing or malformed and operations are interrupted; after every "
        "operation, with its result or exception still held, the files, programs, locks and "
        "temporary files it used and the settings of the process are checked; after every round "
        "everything is dropped and the package's objects and tables are counted; non-trivial: all "
        "rounds were counted")
REAL = ["pyclibrary (all modules)", "pyparsing", "ctypes and the dynamic linker", "file system",
        "Python buffered/text I/O", "garbage collector"]
STUB = ["raw file system calls (pass-through with faults)", "external programs file, ldconfig, ldd, "
        "gcc (scripted, with faults)", "clock", "locks (scheduled)", "C library (compiled test library)",
        "signal delivery (the interrupt is raised by the simulator)"]
ASSUME = ["objects and tables count as left behind if their number grows with every repetition"]
RUNS = {"quick": 800, "thorough": 50000}
ROUNDS = 4
CODES = None
HCACHE = None
FIRST = None  # the settings before the package was used at all
SAME = ["pyparsing defaults", "warning filters", "recursion limit", "switch interval", "locale",
        "int digits", "umask", "environment", "search path", "logging", "threads"]
PARFN = ["CParser.process_all", "CParser.load_cache", "CParser.write_cache", "CParser.load_file",
         "CParser.preprocess", "CParser.parse_defs", "CParser.eval_expr", "CParser.process_struct"]
LIBFN = ["CTypesCLibrary._get_struct", "CTypesCLibrary._get_type", "CLibrary.__call__",
         "CLibrary.__getattr__", "CFunction.__init__", "CFunction.__call__",
         "CLibraryMeta.__call__", "CLibrary.__init__", "build_array"]
CALLS = ["add", "bump", "multi", "void", "pp", "mkpoint", "sum", "len", "nulls", "scale", "mix",
         "pvec", "short", "name", "color", "fail"]
NOTES = ["no error", "fails", "undecodable"]


def prepare(scratch):
    global CODES, HCACHE, FIRST
    import pyclibrary.backends  # noqa: F401

    FIRST = settings()
    L.prepare(scratch, 1)
    CODES = L.CODES
    HCACHE = os.path.join(scratch, "simlib.cache")
    from pyclibrary import CParser

    CParser([L.HDR], cache=HCACHE)
    # what the first use of a library keeps for good belongs to the interpreter
    logging.getLogger("pyclibrary").setLevel(logging.CRITICAL)


def oracle(req, wd):
    raise ValueError(req)


# --- plan -------------------------------------------------------------------------------


def plan(rng, tier):
    n = [0]

    def nid():
        n[0] += 1
        return "o%d" % n[0]

    kinds = rng.choice([["parse"], ["parse"], ["lib"], ["lib"], ["parse", "lib", "find"],
                        ["find", "lib"], ["find"]])
    ints = rng.random() < 0.35
    heads = [rng.randrange(40) for _ in range(2)]
    ops = []
    for _ in range(rng.choice([2, 3, 5, 8])):
        k = rng.choice(kinds)
        r = rng.random()
        o = {"id": nid(), "hold": rng.random() < 0.3}
        if k == "parse":
            o["spec"] = {"hs": rng.sample(heads, rng.choice([1, 1, 2])) if heads[0] != heads[1]
                         else heads[:1], "kw": rng.randrange(len(W.KWARGS)), "rep": 0}
            if r < 0.6:
                o.update(op="build", cache=rng.choice([None, "c0", "c0", "c1"]),
                         bad=rng.choice([None, None, None, "nosuch.h", "bytes.h", "broken.h"]),
                         how=rng.choice(["direct", "direct", "lazy", "copy"]),
                         edit=rng.random() < 0.3)
            else:
                o.update(op="query")
        elif k == "lib":
            o["so"] = rng.choice("abc")
            o["lock"] = rng.random() < 0.4
            o["parser"] = rng.choice(["shared", "shared", "own", "cached"])
            if r < 0.2:
                o["op"] = "open"
            elif r < 0.3:
                o.update(op="openbad", what=rng.choice(["header", "file", "arch", "text", "obj"]))
            elif r < 0.7:
                o.update(op="look", look=[L.rand_lookup(rng) for _ in range(rng.choice([1, 3, 8]))])
            else:
                o.update(op="call", call=[K.rand_call(rng, CALLS) for _ in range(rng.choice([1, 3]))])
        else:
            o.update(op="find", what=rng.choice(["header", "lib", "lib", "lib", "arch", "byname"]),
                     name=rng.choice(["one", "two", "nosuch"]))
        if ints and rng.random() < 0.4 and o["op"] in ("build", "open", "look", "call"):
            r = rng.random()
            if r < 0.6:
                o["int"] = ["new", rng.randrange(400 if k == "parse" else 150)]
            else:
                o["int"] = [rng.choice(PARFN if k == "parse" else LIBFN), int(30 ** rng.random()) - 1]
        ops.append(o)
    rates = {}
    if rng.random() < 0.6:
        for key, names, ps in (
            ("openr:header", ["EIO", "EACCES", "EMFILE"], [0.2]),
            ("read:header", ["EIO"], [0.2, 0.5]),
            ("read:header", ["short"], [0.5]),
            ("close:header", ["EIO"], [0.2]),
            ("openr:cache", ["EIO", "EACCES"], [0.2]),
            ("read:cache", ["EIO"], [0.3]),
            ("fstat:cache", ["EIO"], [0.2]),
            ("openw:tmp", ["ENOSPC", "EACCES", "EMFILE"], [0.3]),
            ("write:tmp", ["ENOSPC", "EIO"], [0.3, 0.6]),
            ("write:tmp", ["short"], [0.5]),
            ("close:tmp", ["EIO", "ENOSPC"], [0.3]),
            ("utime:tmp", ["EIO"], [0.3]),
            ("replace:tmp", ["EACCES", "ENOSPC"], [0.3]),
            ("replace:cache", ["EACCES", "ENOSPC"], [0.3]),
        ):
            if rng.random() < 0.35:
                rates.setdefault(key, []).append([rng.choice(names), rng.choice(ps)])
    tools = {t: rng.choice(["ok", "ok", "rc", "missing", "nonutf8", "spawn", "empty"])
             if rng.random() < 0.6 else "ok" for t in ("file", "ldconfig", "ldd", "gcc")}
    return {"tasks": [{"name": "main", "ops": ops}], "lines": ints, "tools": tools,
            "cfg": {"sched": {"kind": "none"}, "rates": rates,
                    "bufsize": rng.choice([64, 512, 8192])}}


# --- what may be left behind ----------------------------------------------------------------


def settings():
    """State of the process that is nobody's to change."""
    import ctypes

    import pyparsing as pp

    um = os.umask(0o22)
    os.umask(um)
    root = logging.getLogger()
    return {
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "umask": um,
        "locale": locale.setlocale(locale.LC_ALL),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "int digits": sys.get_int_max_str_digits(),
        "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM,
                                                          signal.SIGALRM, signal.SIGCHLD)],
        "warning filters": list(warnings.filters),
        "search path": list(sys.path),
        "logging": (root.level, list(root.handlers), logging.root.manager.disable,
                    logging.raiseExceptions),
        "random numbers": random.getstate(),
        "temporary directory": tempfile.tempdir,
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "hooks": (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile(),
                  threading.excepthook, sys.unraisablehook),
        "streams": (sys.stdin, sys.stdout, sys.stderr),
        "pyparsing defaults": (pp.ParserElement.DEFAULT_WHITE_CHARS,
                               pp.Keyword.DEFAULT_KEYWORD_CHARS,
                               pp.ParserElement._packratEnabled,
                               pp.ParserElement._left_recursion_enabled,
                               pp.ParserElement.verbose_stacktrace),
        "ctypes errno": ctypes.get_errno(),
        "threads": threading.active_count(),
        "search directories": dirs(),
    }


def dirs():
    from pyclibrary import utils

    return list(utils.HEADER_DIRS), list(utils.LIBRARY_DIRS)


SIZED = (dict, list, set, weakref.WeakValueDictionary, weakref.WeakKeyDictionary, weakref.WeakSet)


def tables():
    """Sizes of everything the package's modules and classes hold."""
    out = {}
    seen = set()

    def visit(name, v, depth):
        if id(v) in seen or depth > 4:
            return
        if isinstance(v, SIZED) or type(v).__name__ in ("deque", "OrderedDict", "mappingproxy"):
            seen.add(id(v))
            out[name] = len(v)
            items = v.items() if hasattr(v, "items") else enumerate(v) if isinstance(v, list) else ()
            for k, x in list(items)[:200]:
                if isinstance(x, SIZED):
                    visit("%s[%.40r]" % (name, k), x, depth + 1)
        elif hasattr(v, "cache_info"):
            seen.add(id(v))
            out[name] = v.cache_info().currsize

    for mn, m in sorted(sys.modules.items()):
        if mn.split(".")[0] != "pyclibrary" or m is None:
            continue
        for k, v in sorted(vars(m).items()):
            if k.startswith("__"):
                continue
            visit(mn + "." + k, v, 0)
            if isinstance(v, type) and v.__module__.split(".")[0] == "pyclibrary":
                for a, x in sorted(vars(v).items()):
                    if not a.startswith("__"):
                        visit("%s.%s.%s" % (mn, k, a), x, 0)
                        visit("%s.%s.%s" % (mn, k, a), getattr(x, "__func__", x), 0)
            for a, x in sorted(getattr(v, "__dict__", {}).items()) if callable(v) and not isinstance(
                    v, type) else ():
                visit("%s.%s.%s" % (mn, k, a), x, 0)
    return out


def census():
    gc.collect()
    n = {}
    for o in gc.get_objects():
        t = type(o)
        m = getattr(t, "__module__", None)
        if isinstance(m, str) and m.split(".")[0] in ("pyclibrary", "pyparsing"):
            k = "%s.%s" % (m, t.__qualname__)
            n[k] = n.get(k, 0) + 1
    for k, v in tables().items():
        n["table " + k] = v
    return n


# --- world ------------------------------------------------------------------------------


class Tools:
    """Scripted external programs; they know some library names."""

    def __init__(self, w):
        self.w = w

    def __call__(self, tool, argv, shell, raw):
        w = self.w
        mode = w.plan["tools"].get(tool, "ok")
        w.sim.log("tool", tool, mode)
        if mode != "ok":
            k = tool + ":" + mode
            w.sim.fault_counts[k] = w.sim.fault_counts.get(k, 0) + 1
        if mode == "spawn":
            raise BlockingIOError(11, "Resource temporarily unavailable")
        if mode == "missing" or tool not in ("file", "ldconfig", "ldd", "gcc"):
            if not shell:
                raise FileNotFoundError(2, "No such file or directory", tool)
            return 127, b"", b"sh: not found\n"
        if tool == "file" and mode == "ok":
            return L.elf_file_tool(tool, argv, shell, raw)
        if tool == "gcc" and mode != "rc":
            for i, a in enumerate(argv):
                if a == "-o":
                    with fsim.R_open(argv[i + 1], "w") as f:
                        f.write("x")
        if mode == "rc":
            return 1, b"", b"failed\n"
        if mode == "nonutf8":
            return 0, b"\tlib\xe9.so => /opt/\xe9\xff/lib\xe9.so\n", b""
        if mode == "empty":
            return 0, b"", b""
        if tool == "ldconfig":
            return 0, b"\tlibone.so (libc6) => %s\n" % os.fsencode(w.so["a"]), b""
        if tool == "ldd":
            return 0, b"\tlibtwo.so => %s (0x0)\n" % os.fsencode(w.so["b"]), b""
        return 1, b"/usr/lib/crt1.o\nld: cannot find\n", b""


class World:
    def __init__(self, env, plan, sim):
        self.env, self.plan, self.sim = env, plan, sim
        self.root = os.path.realpath(env.dir)
        self.inc = os.path.join(self.root, "inc")
        self.cdir = os.path.join(self.root, "cache")
        for d in (self.inc, self.cdir, os.path.join(self.root, "bad")):
            os.makedirs(d)
        self.so = {k: os.path.join(L.LIBDIR, "libsim%s.so" % k) for k in "abc"}
        with open(os.path.join(self.inc, "bytes.h"), "wb") as f:
            f.write(b"int half;\n\xff\xfe int other;\n")
        with open(os.path.join(self.inc, "broken.h"), "w") as f:
            f.write("#define F(a, b) ((a) + (b))\nint x[F(1];\n#if F(\n#else\nint a\n")
        with open(os.path.join(self.root, "bad", "libbad.so"), "wb") as f:
            f.write(b"\x7fELF\x01 no library")
        with open(os.path.join(self.root, "bad", "libtext.so"), "w") as f:
            f.write("no library")
        for op in plan["tasks"][0]["ops"]:
            if "spec" in op:
                W.write(op["spec"], self.inc)
        from pyclibrary import utils

        utils.add_header_locations([self.inc])
        utils.add_library_locations([os.path.join(self.root, "bad")])
        self.known = set(self.files())
        self.fs = fsim.FileSim(sim, self.root, plan["cfg"])
        self.fs.classify = self.classify
        self.fs.install()
        procsim.install(Tools(self))
        procsim.LIVE.clear()
        if plan["lines"]:
            CODES.install(sim)
        self.clock = core.BASE_NS

    def classify(self, p):
        d = os.path.dirname(p)
        if d == self.inc:
            return "header"
        if d == self.cdir:
            return "cache" if os.path.basename(p) in ("c0", "c1") else "tmp"
        return "tmp" if d == os.path.join(self.root, "tmp") else "other"

    def files(self):
        out = []
        for d, _, fs in os.walk(self.root):
            out += [os.path.relpath(os.path.join(d, f), self.root) for f in fs]
        return out

    # -- operations

    def parser(self, op):
        from pyclibrary import CParser

        spec = op["spec"]
        fs = [os.path.join(self.inc, n) for n in W.names(spec)]
        if op.get("edit"):
            with self.sim.quiet():
                self.sim.now_ns += 10 ** 9
                fsim.R["utime"](fs[0], ns=(self.sim.now_ns, self.sim.now_ns))
        if op.get("bad"):
            fs.append(os.path.join(self.inc, op["bad"]))
        kw = W.kwargs(spec)
        cache = op.get("cache") and os.path.join(self.cdir, op["cache"])
        how = op.get("how", "direct")
        if how == "lazy":
            p = CParser(fs, process_all=False, **kw)
            p.process_all(cache=cache)
            return p
        if how == "copy":
            kw["copy_from"] = CParser(fs[:1])
        return CParser(fs, cache=cache, **kw)

    def library(self, op):
        from pyclibrary import CLibrary, CParser

        h = L.PARSERS[0]
        kw = {"lock_calls": op["lock"]}
        if op["parser"] == "own":
            h = CParser([L.HDR], cache=HCACHE)
        elif op["parser"] == "cached":
            h = [L.HDR]
            kw["cache"] = HCACHE
        return CLibrary(self.so[op["so"]], h, **kw)

    def do(self, op):
        from pyclibrary import CLibrary, utils

        k = op["op"]
        if k == "build":
            return self.parser(op)
        if k == "query":
            p = self.parser(op)
            p.find("_1"), p.find_text("int"), W.view(p)
            return p
        if k == "open":
            return self.library(op)
        if k == "openbad":
            bad = os.path.join(self.root, "bad")
            if op["what"] == "header":
                return CLibrary(self.so[op["so"]], [os.path.join(self.inc, "nosuch.h")])
            if op["what"] == "obj":
                return CLibrary(object(), L.PARSERS[0])
            return CLibrary({"file": os.path.join(bad, "nosuch.so"), "arch": os.path.join(bad, "libbad.so"),
                             "text": os.path.join(bad, "libtext.so")}[op["what"]], L.PARSERS[0])
        if k == "look":
            l = self.library(op)
            return l, [L.outcome(l, x) for x in op["look"]]
        if k == "call":
            l = self.library(op)
            T, g = K.types(l), K.getter(l)
            out = [l]
            for c in op["call"]:
                x = K.Call(l, g, c, T)
                x.perform()
                out.append(x)
            return out
        w = op["what"]
        if w == "header":
            return utils.find_header(op["name"] + ".h")
        if w == "lib":
            return utils.find_library(op["name"])
        if w == "arch":
            return utils.LibraryPath(self.so["a"]).arch
        return CLibrary(op["name"], L.PARSERS[0])

    # -- checks

    def check(self, t, op, interrupted, before):
        what = "%s (%s)" % (op["op"], {k: v for k, v in op.items() if k not in ("op", "id", "hold")})
        if self.fs.fds:
            raise Violation("open-file", "%s left %s open" % (what, sorted(
                self.fs.rel(e[0]) for e in self.fs.fds.values())))
        fds = len(os.listdir("/proc/self/fd"))
        if fds > before[1]:
            raise Violation("open-file", "%s left %d file descriptors open" % (what, fds - before[1]))
        live = [x.args for x in procsim.LIVE if not x.finished()]
        procsim.LIVE.clear()
        if live and not interrupted:
            raise Violation("process", "%s left a program running or its pipe open: %.300r" % (what, live))
        if t.held:
            raise Violation("lock-held", "%s left %r locked" % (what, t.held))
        new = set(self.files()) - self.known - {"cache/c0", "cache/c1"}
        # (between creating a file and being told its name nothing can be done, but it is empty then)
        new = [f for f in new if not interrupted or os.path.getsize(os.path.join(self.root, f))]
        if new:
            raise Violation("stray-file", "%s left %s behind" % (what, sorted(new)))
        for k, v in settings().items():
            if v != before[0][k]:
                raise Violation("setting", "%s changed the %s of the process: %.300r instead of %.300r"
                                % (what, k, v, before[0][k]))

    def step(self, t, op, r):
        sim = self.sim
        sim.begin(t, "%sr%d" % (op["id"], r))
        with sim.quiet():
            before = settings(), len(os.listdir("/proc/self/fd"))
        if "int" in op:
            t.interrupt_at = tuple(op["int"])
        res = exc = None
        try:
            res = self.do(op)
        except (SimAbort, Violation):
            raise
        except (Exception, KeyboardInterrupt) as e:
            exc = e
            sim.count("failed")
        else:
            sim.count("succeeded")
        t.interrupt_at = None
        hit = any(f["kind"] == "interrupt" for f in t.op_faults)
        with sim.quiet():
            self.check(t, op, hit, before)
        sim.log("done", op["id"], type(exc).__name__)
        return res, exc


def run(env, plan, sim):
    ops = plan["tasks"][0]["ops"]
    now = settings()
    for k in SAME:
        if now[k] != FIRST[k]:
            raise Violation("setting", "parsing a header and opening its library changed the %s of "
                            "the process: %.300r instead of %.300r" % (k, now[k], FIRST[k]))
    w = World(env, plan, sim)
    counts = []

    def go(t):
        for r in range(ROUNDS):
            held = []
            for op in ops:
                x = w.step(t, op, r)
                if op["hold"]:
                    held.append(x)
                del x
            held.clear()
            with sim.quiet():
                counts.append(census())
        first, last = counts[0], counts[-1]
        for k in sorted(last):
            v = [c.get(k, 0) for c in counts]
            if all(a < b for a, b in zip(v, v[1:])):
                raise Violation("growth", "each of %d rounds of the same operations left more of %s "
                                "behind: %s\noperations: %.1500s" % (ROUNDS, k, v, ops))

    sim.spawn("main", go)
    sim.run()
    return {"nontrivial": len(counts) == ROUNDS}

"""C12: file lookup honours its search order under faults."""

import os
import shutil
import tempfile

from .. import core, libworld, procsim, runner
from ..core import SimAbort, Violation

ID = "C12"
RULE = ("seeded histories of registering directories, creating, replacing and removing files, "
        "directories and links, and looking headers and libraries up (find_header, find_library, "
        "CParser and CLibrary by name or path) while the simulated external programs work, are "
        "missing, fail, print nothing or garbage or cannot be started; some runs have 2-3 threads "
        "with files vanishing and appearing at source-line granularity during a lookup; checked "
        "against a reference search over the recorded file history; non-trivial: a lookup had at "
        "least two possible sources, or a tool was faulty when it was needed")
REAL = ["pyclibrary.utils (all but the Windows architecture probe)",
        "pyclibrary.thirdparty.find_library", "pyclibrary.c_library (CLibraryMeta.__call__)",
        "pyclibrary.c_parser (find_headers, load_file)", "ctypes and the dynamic linker",
        "file system"]
STUB = ["external programs file, ldconfig, ldd, gcc (scripted, with faults)", "locks (scheduled)"]
RUNS = {"quick": 14000, "thorough": 400000}

CODES = None
PARSER = None
SRC = None
DIRS = ["d0", "d1", "x-32-bit", "dir sp", "d-64-bit"]
HNAMES = ["alpha.h", "beta.h", "sub/gamma.h"]
LNAMES = ["libone.so", "libtwo.so", "one", "two", "x.y", "c++q", "nine"]
TOOLS = ["ldconfig", "ldd", "gcc"]
# garbage no search may find anything in
JUNK = [b"", b"\xff\xfe\xfa no such thing\n", b"usage: tool [options]\n\n",
        b"Segmentation fault (core dumped)\n", b"lib.so => /lib/lib.so (0x0)\n\tnot a dynamic\n",
        b"\x00\x01\x02"]


def prepare(scratch):
    global CODES, PARSER, SRC
    import subprocess

    SRC = os.path.join(scratch, "libsima.so")
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", SRC,
                        os.path.join(runner.HERE, "sim", "clib", "simlib.c")],
                       capture_output=True, text=True)
    if r.returncode:
        raise core.HarnessError("gcc failed: " + r.stderr)
    hdr = os.path.join(scratch, "add.h")
    with open(hdr, "w") as f:
        f.write("int sl_add(int a, int b);\n")
    from pyclibrary import CParser

    PARSER = CParser([hdr])
    core.fast_grammar_locks()
    CODES = core.LinePoints(core.package_code(os.path.join(runner.REPO, "pyclibrary") + os.sep))


def oracle(req, wd):
    raise ValueError(req)


# --- plan -------------------------------------------------------------------------------


def rand_mode(rng, tool):
    if tool == "file":
        return rng.choice(["ok", "ok", "missing", "rc", "empty", "garble", "spawn", "data",
                           "lie"])
    return rng.choice(["ok", "ok", "ok", "missing", "rc", "rcout", "junk", "nonutf8", "spawn"])


def rand_dirs(rng, full=False):
    if rng.random() < 0.5 and not full:
        return None
    out = rng.sample(range(5), rng.choice([0, 1, 2, 2, 3]) if not full else rng.choice([1, 2, 3]))
    return [[i, rng.choice(["abs", "abs", "rel", "missing"])] for i in out]


def plan(rng, tier):
    n = [0]

    def nid():
        n[0] += 1
        return "o%d" % n[0]

    def fop(o=None):
        o = {"op": "put", "id": nid(), "d": rng.randrange(5),
             "name": rng.choice(HNAMES + LNAMES[:4] + LNAMES[:2]),
             "kind": rng.choice(["file", "file", "file", "dir", "link", "dangling"])}
        if rng.random() < 0.4:
            o["op"] = "rm"
        return o

    def look():
        r = rng.random()
        if r < 0.3:
            return {"op": "find_h", "id": nid(), "name": rng.choice(HNAMES),
                    "dirs": rand_dirs(rng)}
        if r < 0.75:
            return {"op": "find_l", "id": nid(), "name": rng.choice(LNAMES),
                    "dirs": rand_dirs(rng)}
        return None

    k = rng.choice([1, 1, 1, 2, 3])
    setup = [fop() for _ in range(rng.choice([0, 3, 8, 14]))]
    for o in setup:
        o["op"] = "put"
    for _ in range(rng.choice([0, 1, 2])):
        setup.append({"op": rng.choice(["reg_h", "reg_l"]), "id": nid(),
                      "dirs": rand_dirs(rng, True), "alias": rng.random() < 0.3})
    tables = {}
    for t in TOOLS:
        names = rng.sample(["one", "two", "x.y", "c++q", "nine"], rng.choice([0, 1, 2, 4]))
        tables[t] = [[x, rng.randrange(3)] for x in names]
    faulty = rng.random() < 0.6
    modes = {t: rand_mode(rng, t) if faulty and rng.random() < 0.6 else "ok"
             for t in TOOLS + ["file"]}
    arch = {str(i): rng.choice(["64", "64", "32", "both", "data"]) for i in range(20)}
    tasks = []
    for i in range(k):
        ops = []
        if i == 0:
            m = rng.choice([3, 6, 12]) if k == 1 else rng.choice([1, 2, 3])
            while len(ops) < m:
                o = look()
                r = rng.random()
                if o is None and k == 1:
                    if r < 0.3:
                        o = {"op": "parse", "id": nid(), "name": rng.choice(HNAMES)}
                    else:
                        o = {"op": "open", "id": nid(), "name": rng.choice(LNAMES),
                             "path": rng.choice([None, None, rng.randrange(5)])}
                elif k == 1 and r < 0.15:
                    o = {"op": rng.choice(["reg_h", "reg_l"]), "id": nid(),
                         "dirs": rand_dirs(rng, True), "alias": rng.random() < 0.3}
                elif k == 1 and r < 0.35:
                    o = fop()
                elif k == 1 and r < 0.45:
                    t = rng.choice(TOOLS + ["file"])
                    o = {"op": "tool", "id": nid(), "tool": t, "mode": rand_mode(rng, t)}
                if o is not None:
                    ops.append(o)
        elif i == 1:
            ops = [fop() for _ in range(rng.choice([1, 3, 6]))]
        else:
            while len(ops) < 2:
                o = look()
                if o is not None:
                    ops.append(o)
        tasks.append({"name": "thr%d" % i, "ops": ops})
    r = rng.random()
    if k == 1:
        sched = {"kind": "none"}
    elif r < 0.7:
        sched = {"kind": "rand", "p": rng.choice([0.05, 0.2, 0.4])}
    else:
        sched = {"kind": "pct", "d": rng.choice([1, 2, 4]), "k": rng.choice([20, 60, 200])}
    return {"tasks": tasks, "setup": setup, "tables": tables, "modes": modes, "arch": arch,
            "cfg": {"sched": sched}}


# --- world ---------------------------------------------------------------------------------


class World:
    def __init__(self, env, plan, sim):
        self.root, self.plan, self.sim = env.dir, plan, sim
        self.modes = dict(plan["modes"])
        self.regs = {"h": [], "l": []}
        self.log = []              # (seq, path, is it a file now)
        self.isfile = {}
        self.seq = 0
        self.contested = 0
        self.used = set()
        for d in DIRS:
            os.makedirs(os.path.join(d, "sub"))
        os.makedirs("sys")
        os.makedirs("tmp")
        os.makedirs("targets")
        tempfile.tempdir = os.path.join(self.root, "tmp")
        for n in ("one", "two", "x.y", "c++q", "nine"):
            for i in range(3):
                shutil.copy(SRC, self.sys(n, i))
        procsim.install(self.tool)

    def sys(self, n, i):
        return os.path.join(self.root, "sys", "lib%s.so.%d" % (n, i))

    # external programs

    def lines(self, tool):
        out = []
        for n, i in self.plan["tables"].get(tool, ()):
            p = self.sys(n, i)
            decoy = "lib%s-2.so" % n, "lib%sx.so" % n, "lib%s.so" % n.replace(".", "z") + "x"
            if tool == "ldconfig":
                for d in decoy[:2]:
                    out.append("\t%s (libc6,x86-64) => /nodir/%s" % (d, d))
                out.append("\t%s (libc6,x86-64) => %s" % (os.path.basename(p), p))
                j = (i + 1) % 3
                out.append("\t%s (libc6,x86-64) => %s" % (os.path.basename(self.sys(n, j)),
                                                          self.sys(n, j)))
            elif tool == "ldd":
                out.append("\t%s => /nodir/%s (0x00007f0000000000)" % (decoy[0], decoy[0]))
                out.append("\t%s => %s (0x00007f0000000000)" % (os.path.basename(p), p))
        if tool != "gcc":
            out.append("\tlibxzy.so.1 (libc6,x86-64) => /nodir/libxzy.so.1")
        return out

    def tool(self, tool, argv, shell, raw):
        sim = self.sim
        t = sim.active()
        if t is not None:
            sim.point(t, "proc")
        mode = self.modes.get(tool, "ok")
        self.used.add((tool, mode))
        sim.count("tool_" + tool)
        if mode != "ok":
            sim.fault_counts[tool + ":" + mode] = sim.fault_counts.get(tool + ":" + mode, 0) + 1
        sim.log("tool", tool, mode)
        if mode == "spawn":
            raise BlockingIOError(11, "Resource temporarily unavailable")
        if tool == "file":
            return self.file_tool(argv, mode)
        if tool not in TOOLS:
            return 127, b"", b"sh: not found\n"
        if mode == "missing":
            return 127, b"", b"sh: 1: %s: not found\n" % tool.encode()
        if tool == "gcc":
            return self.gcc(argv, mode)
        text = "\n".join(self.lines(tool)).encode() + b"\n"
        if mode == "rc":
            return 1, b"", b"failed\n"
        if mode == "rcout":
            return 1, text, b"failed\n"
        if mode == "junk":
            return 0, JUNK[len(argv) % len(JUNK)] + JUNK[1], b""
        if mode == "nonutf8":
            return 0, b"\tlib\xe9.so => /opt/\xe9\xff/lib\xe9.so\n" + text, b""
        return 0, text, b""

    def gcc(self, argv, mode):
        words = [w for a in argv for w in a.split()]
        out = None
        for i, w in enumerate(words):
            if w == "-o" and i + 1 < len(words):
                out = words[i + 1]
            elif w.startswith("-o") and len(w) > 2:
                out = w[2:]
        if out and os.path.dirname(out) == os.path.join(self.root, "tmp"):
            if mode in ("rc", "junk") or (mode == "ok" and self.plan["arch"]["0"] != "both"):
                # a failed link removes its output
                if os.path.exists(out):
                    os.unlink(out)
            else:
                with open(out, "w") as f:
                    f.write("\x7fELF")
        name = [w[2:] for w in words if w.startswith("-l") and len(w) > 2]
        text = b"/usr/bin/ld: mode elf_x86_64\n/usr/lib/crt1.o\n/usr/lib/libgcc.a\n"
        if mode == "rc":
            return 1, b"", b"cc1: fatal error\n"
        if mode == "junk":
            return 1, JUNK[1], JUNK[3]
        if mode == "nonutf8":
            text = b"/opt/\xe9/crt1.o\n" + text
        hit = [x for x in self.plan["tables"].get("gcc", ()) if name and x[0] == name[-1]]
        if hit:
            text += os.fsencode(self.sys(*hit[0])) + b"\n/usr/lib/libc.so.6\n"
        else:
            text += b"/usr/bin/ld: cannot find -l%s\n" % os.fsencode(name[-1] if name else "")
        return 1, text, b"collect2: error: ld returned 1 exit status\n"

    def arch_of(self, path):
        p = os.path.realpath(path)
        rel = os.path.relpath(p, self.root)
        return self.plan["arch"][str(sum(rel.encode()) % 20)]

    def file_tool(self, argv, mode):
        if mode == "missing":
            raise FileNotFoundError(2, "No such file or directory", "file")
        flags = "".join(a[1:] for a in argv[1:-1] if a.startswith("-") and a[1:2] != "-")
        brief = "b" in flags or "--brief" in argv
        deref = "L" in flags or "--dereference" in argv
        path = argv[-1]
        pre = b"" if brief else os.fsencode(path) + b": "
        if mode == "rc":
            return 1, b"", b"file: could not find any valid magic files!\n"
        if mode == "lie":
            # what a program that failed had printed before is worth nothing
            return (1, -11, 139)[len(path) % 3], pre + b"ELF %d-bit LSB" % (
                32 if self.arch_of(path) == "64" else 64), b"file: I/O error\n"
        if mode == "empty":
            return 0, b"", b""
        if mode == "garble":
            return 0, b"\xff\xfe\x00 \x80\n", b""
        if mode == "data":
            return 0, pre + b"data\n", b""
        if os.path.islink(path) and not deref:
            return 0, pre + b"symbolic link to " + os.fsencode(os.readlink(path)) + b"\n", b""
        if not os.path.isfile(path):
            return 0, pre + b"cannot open\n", b""
        return 0, pre + {
            "64": b"ELF 64-bit LSB shared object, x86-64", "32": b"ELF 32-bit LSB shared object",
            "both": b"universal binary: 32-bit and 64-bit objects", "data": b"data",
        }[self.arch_of(path)] + b"\n", b""

    # files

    def path(self, d, name, how="abs"):
        base = DIRS[d] if how == "rel" else os.path.join(self.root, DIRS[d])
        return os.path.join(base, name)

    def set(self, path, val):
        self.seq += 1
        self.isfile[path] = val
        self.log.append((self.seq, path, val))

    def fop(self, op):
        p = self.path(op["d"], op["name"])
        if os.path.islink(p) or os.path.isfile(p):
            os.unlink(p)
        elif os.path.isdir(p):
            os.rmdir(p)
        if op["op"] == "rm":
            self.set(p, False)
            return
        kind = op["kind"]
        tgt = os.path.join(self.root, "targets", "%d-%s" % (
            op["d"], op["name"].replace("/", "-")))
        if kind == "dir":
            os.mkdir(p)
        elif kind == "dangling":
            os.symlink(tgt + ".gone", p)
        else:
            q = tgt if kind == "link" else p
            if op["name"].endswith(".h"):
                with open(q, "w") as f:
                    f.write("#define WHERE %d\n" % (100 + op["d"]))
            else:
                shutil.copy(SRC, q + ".new")
                os.replace(q + ".new", q)
            if kind == "link":
                os.symlink(tgt, p)
        self.set(p, kind in ("file", "link"))

    def dirs(self, spec):
        if spec is None:
            return None
        out = []
        for i, how in spec:
            if how == "missing":
                out.append(os.path.join(self.root, "nodir%d" % i))
            else:
                out.append(DIRS[i] if how == "rel" else os.path.join(self.root, DIRS[i]))
        return out

    def register(self, op):
        from pyclibrary.utils import add_header_locations, add_library_locations

        ds = self.dirs(op["dirs"])
        keep = list(ds)
        (add_header_locations if op["op"] == "reg_h" else add_library_locations)(ds)
        if ds != keep:
            raise Violation("argument-modified", "registering changed the caller's list")
        self.regs[op["op"][-1]] += [d for d in keep if os.path.isdir(d)]
        if op.get("alias"):
            # the list stays the caller's
            ds.insert(0, os.path.join(self.root, DIRS[0]))
            ds.append(os.path.join(self.root, DIRS[1]))

    # reference

    def candidates(self, op, which):
        ds = (self.dirs(op.get("dirs")) or []) + self.regs[which][::-1]
        return [os.path.join(d, op["name"]) for d in ds]

    def states(self, path, start):
        """All the states a path had since a point in time."""
        path = os.path.join(self.root, path)
        cur = False
        seen = set()
        for s, p, v in self.log:
            if p == path:
                if s <= start:
                    cur = v
                else:
                    seen.add(v)
        seen.add(cur)
        return seen

    def expected(self, op, which, start):
        """-> (allowed paths, whether failing is allowed)"""
        ok = []
        sure = False
        for c in self.candidates(op, which):
            st = self.states(c, start)
            if True in st:
                ok.append(c)
                if st == {True}:
                    sure = True
                    break
        if len(ok) > 1 or (ok and which == "l"):
            self.contested += 1
        if sure:
            return ok, False
        if which == "h":
            return ok, True
        fail = True
        for t in TOOLS:
            m = self.modes[t]
            hit = [x for x in self.plan["tables"].get(t, ()) if x[0] == op["name"]]
            if m != "ok":
                self.contested += 1
            if m == "spawn":
                # the search may go on or give up
                continue
            if m in ("missing", "rc", "junk") or not hit:
                continue
            ok.append(self.sys(*hit[0]))
            if m in ("ok",) or (t == "gcc" and m == "rcout"):
                if not any(self.modes[x] == "spawn" for x in TOOLS[:TOOLS.index(t)]):
                    fail = False
                break
        return ok, fail


def run(env, plan, sim):
    from pyclibrary import CLibrary, CParser
    from pyclibrary.utils import find_header, find_library

    w = World(env, plan, sim)
    for op in plan["setup"]:
        if op["op"].startswith("reg"):
            w.register(op)
        else:
            w.fop(op)
    CODES.install(sim)
    single = len(plan["tasks"]) == 1

    def same(a, b):
        return os.path.realpath(a) == os.path.realpath(b)

    def judge(op, which, start, got, err):
        allowed, fail = w.expected(op, which, start)
        what = "%s(%r, dirs=%r)" % (op["op"], op["name"], op.get("dirs"))
        if err is not None:
            if not isinstance(err, OSError):
                raise Violation("unrelated-error", "%s raised %r" % (what, err))
            if not fail:
                raise Violation("not-found", "%s raised %r, expected %s" % (what, err, allowed))
            sim.count("not_found")
            return
        if not isinstance(got, str) or not any(same(got, a) for a in allowed):
            raise Violation("wrong-path", "%s gave %r, expected %s" % (
                what, got, allowed or "OSError"))
        if str(getattr(got, "path", got)) != str(got):
            raise Violation("wrong-path", "path attribute %r of %r" % (got.path, got))
        sim.count("found")

    def find(op):
        which = op["op"][-1]
        fn = find_header if which == "h" else find_library
        dirs = w.dirs(op.get("dirs"))
        keep = None if dirs is None else list(dirs)
        start = w.seq
        got = err = None
        try:
            if dirs is None:
                got = fn(op["name"])
            else:
                got = fn(op["name"], dirs)
        except (SimAbort, Violation):
            raise
        except Exception as e:
            err = e
        with sim.quiet():
            if dirs != keep:
                raise Violation("argument-modified", "%s changed the caller's list of directories "
                                "from %r to %r" % (fn.__name__, keep, dirs))
            judge(op, which, start, got, err)

    def parse(op):
        allowed, fail = w.expected(op, "h", w.seq)
        try:
            p = CParser([op["name"]])
        except (SimAbort, Violation):
            raise
        except OSError as e:
            if not fail:
                raise Violation("not-found", "CParser(%r) raised %r, expected %s" % (
                    op["name"], e, allowed))
            return
        got = p.defs["values"].get("WHERE")
        want = [100 + i for a in allowed for i, d in enumerate(DIRS)
                if os.path.join(w.root, a) == w.path(i, op["name"])]
        if got not in want:
            raise Violation("wrong-path", "CParser(%r) read the file of directory %s instead of "
                            "one of %s" % (op["name"], got, want or "none"))
        sim.count("parsed")

    def open_(op):
        if op["path"] is not None:
            lib = w.path(op["path"], op["name"])
            allowed, fail = ([lib], False) if w.isfile.get(lib) else ([], True)
        else:
            lib = op["name"]
            allowed, fail = w.expected(op, "l", w.seq)
        got = err = None
        try:
            got = CLibrary(lib, PARSER)
        except (SimAbort, Violation):
            raise
        except Exception as e:
            err = e
        arches = set()
        for a in allowed:
            x = w.arch_of(a) if w.modes["file"] == "ok" else None
            arches.add(x)
        if err is not None:
            if fail or "32" in arches:
                if not isinstance(err, (OSError, AssertionError)):
                    raise Violation("unrelated-error", "CLibrary(%r) raised %r" % (lib, err))
                sim.count("open_refused")
                return
            raise Violation("load-blocked", "CLibrary(%r) raised %r although the architecture of "
                            "%s is %s (file: %s)" % (lib, err, allowed, arches, w.modes["file"]))
        if not allowed:
            raise Violation("wrong-path", "CLibrary(%r) opened something" % lib)
        if arches == {"32"}:
            raise Violation("wrong-architecture", "CLibrary(%r) loaded a library which is known not "
                            "to match" % lib)
        if got("functions", "sl_add")(4, 5)() != 9:
            raise Violation("wrong-result", "sl_add")
        sim.count("opened")

    def body(ops):
        def go(t):
            for op in ops:
                sim.begin(t, op["id"])
                k = op["op"]
                if k in ("put", "rm"):
                    with sim.quiet():
                        w.fop(op)
                elif k.startswith("reg"):
                    w.register(op)
                elif k == "tool":
                    w.modes[op["tool"]] = op["mode"]
                elif k == "parse":
                    parse(op)
                elif k == "open":
                    open_(op)
                else:
                    find(op)
                if single:
                    left = os.listdir(os.path.join(w.root, "tmp"))
                    if left:
                        raise Violation("temporary-file", "%s left %d temporary file(s) behind" % (
                            k, len(left)))
                sim.log("op", t.id, op["id"])

        return go

    for tk in plan["tasks"]:
        sim.spawn(tk["name"], body(tk["ops"]))
    sim.run()
    if sim.violation is None and sim.error is None:
        left = os.listdir(os.path.join(w.root, "tmp"))
        if left:
            raise Violation("temporary-file", "%d temporary file(s) left behind" % len(left))
    return {"nontrivial": w.contested > 0}

"""C05: one live library object per library file."""

import ctypes
import gc
import os
import shutil
import weakref

from .. import libworld as L
from .. import procsim
from ..core import SimAbort, Violation
from ..libworld import prepare as _prepare

ID = "C05"
RULE = ("seeded schedules (source-line granularity) of 1-4 threads opening, using and releasing "
        "up to four library files (two with the same base name) through absolute, relative, "
        "dotted, symbolic-link, name and backend-object spellings, with missing headers, bad "
        "headers, unloadable, wrong-architecture and missing files in between and garbage "
        "collections injected at source lines; non-trivial: one file was requested at least twice "
        "while alive, or again after release")
REAL = ["pyclibrary.c_library (CLibraryMeta, CLibrary)", "pyclibrary.backends (all)",
        "pyclibrary.utils (find_library, LibraryPath)", "pyclibrary.c_parser",
        "ctypes and the dynamic linker", "weakref registry"]
STUB = ["external programs (file, ldconfig, ldd, gcc)", "C library (compiled test library)",
        "locks (scheduled)", "garbage collector (triggered by the simulator)"]
RUNS = {"quick": 8000, "thorough": 100000}

FILES = ["d1/libsima.so", "d1/libsimb.so", "d2/libsima.so", "d2/libother.so"]
SPELL = ["abs", "rel", "dotrel", "dots", "link", "dirlink", "cdll", "cdllrel", "cdlllink"]
MOVING = ["rel", "dotrel", "cdllrel", "movlink", "movlink", "link", "abs", "cdllmov"]
CWD = [".", "d1", "d2", "links"]
FOCUS = [["CLibraryMeta.__call__"], ["CLibraryMeta.__call__", "CLibrary.__init__"],
         ["CLibrary.__init__", "CTypesCLibrary._link_library"],
         ["CLibraryMeta.__call__", "get_library_path", "find_library"]]
HEADERS = {v: "#define VARIANT %d\nint sl_add(int a, int b);\nstruct sl_v%d { int a[%d]; };\n"
           % (v, v, v + 1) for v in (1, 2, 3)}
CP = {}


def prepare(scratch):
    _prepare(scratch, 0)
    from pyclibrary import CParser

    d = os.path.join(scratch, "hdr")
    os.makedirs(d)
    for v, text in HEADERS.items():
        p = os.path.join(d, "v%d.h" % v)
        with open(p, "w") as f:
            f.write(text)
        CP[v] = CParser([p])


def oracle(req, wd):
    raise ValueError(req)


def plan(rng, tier):
    n = [0]

    def nid():
        n[0] += 1
        return "o%d" % n[0]

    k = rng.choice([1, 2, 2, 3, 4])
    files = rng.sample(range(4), rng.choice([1, 1, 2, 3]))
    fails = rng.random() < 0.5
    # the working directory and a link change between the requests
    moving = k == 1 and rng.random() < 0.6
    if moving:
        files = rng.sample(range(4), rng.choice([2, 3]))
        if rng.random() < 0.6:
            files = [0, 2]
    tasks = []
    for i in range(k):
        ops = []
        for _ in range(rng.choice([2, 3, 5, 8]) if k > 1 else rng.choice([4, 8, 16])):
            r = rng.random()
            if r < 0.6:
                sp = rng.choice(MOVING if moving and rng.random() < 0.7 else SPELL)
                f = rng.choice(files)
                if moving and rng.random() < 0.6:
                    ops.append({"op": "cd", "id": nid(), "d": rng.choice(CWD)})
                # by name only the file found first can be meant
                if rng.random() < 0.15:
                    sp, f = "name", rng.choice([x for x in files if x != 2] or [0])
                o = {"op": "open", "id": nid(), "f": f, "sp": sp, "v": rng.choice([1, 2, 3]),
                     "list": rng.random() < 0.15, "prefix": rng.random() < 0.2}
                if fails and rng.random() < 0.3:
                    o["bad"] = rng.choice(["nohdr", "hdrtype", "conv"])
                ops.append(o)
            elif r < 0.8:
                ops.append({"op": "drop", "id": nid(), "i": rng.randrange(6)})
            elif r < 0.88:
                ops.append({"op": "use", "id": nid(), "i": rng.randrange(6)})
            elif r < 0.93:
                ops.append({"op": "gc", "id": nid()})
            elif fails:
                ops.append({"op": "badfile", "id": nid(),
                            "which": rng.choice(["missing", "arch", "garbage", "dir", "noname"])})
        tasks.append({"name": "thr%d" % i, "ops": ops})
    r = rng.random()
    if k == 1:
        sched = {"kind": "none"}
    elif r < 0.4:
        sched = {"kind": "rand", "p": rng.choice([0.02, 0.1, 0.3])}
    elif r < 0.75:
        sched = {"kind": "rand", "p": 0.02, "focus": rng.choice(FOCUS)}
    else:
        sched = {"kind": "pct", "d": rng.choice([1, 2, 4]), "k": rng.choice([60, 300, 1000]),
                 "log": True}
    return {"tasks": tasks, "cfg": {"sched": sched, "gc_rate": rng.choice([0, 0.003, 0.02]),
                    "instr": L.rand_instr(rng)}}


def run(env, plan, sim):
    from pyclibrary import CLibrary, utils

    w = L.LibWorld(env, plan, sim)
    root = env.dir
    os.makedirs("d1")
    os.makedirs("d2")
    os.makedirs("links")
    for f in FILES:
        src = os.path.join(L.LIBDIR, "libsimb.so" if "simb" in f else "libsima.so")
        shutil.copy(src, f)
    os.symlink("d1", "ld1")
    os.symlink(os.path.join(root, "d2"), "ld2")
    for i, f in enumerate(FILES):
        os.symlink(os.path.join("..", f), "links/l%d.so" % i)
    with open("d1/garbage.so", "wb") as f:
        f.write(b"this is no library\n")
    with open("d1/lib32.so", "wb") as f:
        with open(FILES[0], "rb") as g:
            b = bytearray(g.read())
        b[4] = 1
        f.write(b)
    utils.add_library_locations([os.path.join(root, "d2"), os.path.join(root, "d1")])
    hdr = {}
    for v, text in HEADERS.items():
        hdr[v] = os.path.join(root, "v%d.h" % v)
        with open(hdr[v], "w") as f:
            f.write(text)

    held = []            # (file, object) strong references of the users
    refs = {i: [] for i in range(4)}   # every object ever returned for a file
    variant = weakref.WeakKeyDictionary()
    multi = [0]
    opening = {}         # file -> number of opens in progress

    def spell(op):
        f = FILES[op["f"]]
        d, b = f.split("/")
        sp = op["sp"]
        here = os.path.relpath(os.path.join(root, f))
        if os.sep not in here:
            here = "./" + here
        moved = os.path.join(root, "links", "moving.so")
        if "mov" in sp:
            if os.path.lexists(moved):
                os.unlink(moved)
            os.symlink(os.path.join("..", f), moved)
        return {
            "abs": lambda: os.path.join(root, f),
            "rel": lambda: here,
            "dotrel": lambda: "./" + here,
            "movlink": lambda: moved,
            "cdllmov": lambda: ctypes.CDLL(moved),
            "dots": lambda: os.path.join(root, d, "..", d, ".", b),
            "link": lambda: os.path.join(root, "links", "l%d.so" % op["f"]),
            "dirlink": lambda: os.path.relpath(os.path.join(root, "l" + d, b)),
            "name": lambda: b,
            "cdll": lambda: ctypes.CDLL(os.path.join(root, f)),
            "cdllrel": lambda: ctypes.CDLL("./" + here),
            "cdlllink": lambda: ctypes.CDLL(os.path.join(root, "links", "l%d.so" % op["f"])),
        }[sp]()

    def alive(i):
        return [o for o in (r() for r in refs[i]) if o is not None]

    def open_(t, op):
        i = op["f"]
        kw = {}
        headers = CP[op["v"]]
        bad = op.get("bad")
        if op["list"]:
            headers = [hdr[op["v"]]]
        if bad == "nohdr":
            headers = [os.path.join(root, "nosuch.h")]
        elif bad == "hdrtype":
            headers = "not a parser"
        elif bad == "conv":
            kw["convention"] = "nosuch"
            if op["sp"].startswith("cdll"):
                bad = None
        if op["prefix"]:
            kw["prefix"] = "sl_"
        with sim.quiet():
            lib = spell(op)
            before = alive(i)[:1]
            if before:
                multi[0] += 1
        was_alive = bool(before)
        before = None
        err = obj = None
        opening[i] = opening.get(i, 0) + 1
        try:
            obj = CLibrary(lib, headers, **kw)
        except (SimAbort, Violation):
            raise
        except Exception as e:
            err = e
        opening[i] -= 1
        with sim.quiet():
            if err is not None:
                if not bad:
                    raise Violation("open-failed", "opening %s as %s failed: %r" % (
                        FILES[i], op["sp"], err))
                # the file was held by someone all the time?
                if was_alive and any(h[0] == i and h[2] <= op["begun"] for h in held):
                    raise Violation("open-failed", "%s is open, but opening it again as %s failed: "
                                    "%r" % (FILES[i], op["sp"], err))
                err = None
                sim.count("open_error")
                return
            for o in alive(i):
                if o is not obj:
                    raise Violation("two-objects", "%s has two live library objects (opened as %s)"
                                    % (FILES[i], op["sp"]))
            for j in range(4):
                if j != i and any(o is obj for o in alive(j)):
                    raise Violation("shared-object", "%s and %s share a library object" % (
                        FILES[i], FILES[j]))
            new = obj not in variant
            alone = opening[i] == 0 and sim.now_op[i] == op["id"]
            if bad and new and alone:
                raise Violation("bad-open-succeeded", "opening with %s succeeded" % bad)
            v = obj["values"].get("VARIANT")
            if new:
                variant[obj] = v
                if v not in (1, 2, 3):
                    raise Violation("wrong-definitions", "the library has no definitions")
                if not was_alive and alone and v != op["v"]:
                    raise Violation("stale-object", "%s was opened afresh but has other headers"
                                    % FILES[i])
                sim.count("opened_new")
            else:
                sim.count("opened_same")
            if obj("functions", "sl_add")(2, 5)() != 7:
                raise Violation("wrong-result", "sl_add")
            refs[i].append(weakref.ref(obj))
            seq[0] += 1
            held.append((i, obj, seq[0]))

    seq = [0]
    sim.now_op = {}

    def body(ops):
        def go(t):
            for op in ops:
                k = op["op"]
                op = dict(op)
                if k == "open":
                    sim.now_op[op["f"]] = op["id"]
                sim.begin(t, op["id"])
                seq[0] += 1
                op["begun"] = seq[0]
                if k == "open":
                    open_(t, op)
                elif k == "drop":
                    if held:
                        with sim.quiet():
                            del held[op["i"] % len(held)]
                elif k == "use":
                    if held:
                        o = held[op["i"] % len(held)][1]
                        if o.sl_add(1, 2)() != 3:
                            raise Violation("wrong-result", "sl_add")
                        o = None
                elif k == "cd":
                    os.chdir(os.path.join(root, op["d"]))
                elif k == "gc":
                    with sim.quiet():
                        gc.collect()
                else:
                    badfile(op)
                sim.log("op", t.id, op["id"], len(held))

        return go

    def badfile(op):
        p = {"missing": os.path.join(root, "d1", "nosuch.so"), "garbage": os.path.join(root, "d1", "garbage.so"),
             "arch": os.path.join(root, "d1", "lib32.so"), "dir": os.path.join(root, "d1"),
             "noname": "nosuchlib.so"}[op["which"]]
        try:
            CLibrary(p, CP[1])
        except (SimAbort, Violation):
            raise
        except (OSError, AssertionError):
            sim.count("badfile_error")
            return
        except Exception as e:
            raise Violation("wrong-error", "opening a %s file raised %r" % (op["which"], e))
        raise Violation("bad-open-succeeded", "opening a %s file succeeded" % op["which"])

    for tk in plan["tasks"]:
        sim.spawn(tk["name"], body(tk["ops"]))
    sim.run()
    if sim.violation is None and sim.error is None:
        # everything released: every file can be opened afresh, with other headers
        del held[:]
        gc.collect()
        for i in range(4):
            if alive(i):
                raise Violation("leak", "%s stays open after the last reference is gone" % FILES[i])

        def last(t):
            with sim.quiet():
                for i, f in enumerate(FILES):
                    o = CLibrary(os.path.join(root, f), CP[1 + i % 3])
                    if o["values"].get("VARIANT") != 1 + i % 3:
                        raise Violation("stale-object", "%s was opened afresh but has other headers"
                                        % f)
                    if o("functions", "sl_add")(20, 5)() != 25:
                        raise Violation("wrong-result", "sl_add")

        sim.spawn("last", last)
        sim.run_more()
    return {"nontrivial": multi[0] > 0}

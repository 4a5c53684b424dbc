"""C14: a call under way holds up only the calls it must exclude."""

import builtins
import ctypes
import gc
import io
import os

from .. import calls as K
from .. import libworld as L
from ..core import Violation
from ..libworld import oracle, prepare as _prepare  # noqa: F401
from .c04 import text

ID = "C14"
RULE = ("seeded schedules of 1-3 threads staying inside functions of a library (with and without "
        "lock_calls, directly or in a call made from a callback, in two libraries at once) until "
        "1-3 other threads have finished lookups of the same and other libraries, array "
        "constructions, calls which need no lock held by the staying threads, openings, releases "
        "and parser constructions (or that a thread stays in the opening of a header file or in file(1) while it "
        "builds a parser or opens a library); the staying threads leave only then, so that whatever waits "
        "for them is a deadlock; calls which must be excluded wait meanwhile and have to finish "
        "afterwards; non-trivial: at least one operation ran from start to end while a thread "
        "stayed inside a function")
REAL = ["pyclibrary.c_library (all)", "pyclibrary.backends.ctypes (all)",
        "pyclibrary.c_parser", "ctypes and libffi"]
STUB = ["C library (compiled test library which stays until told to leave)",
        "locks (scheduled RLock/Lock)", "external programs (file)"]
RUNS = {"quick": 5000, "thorough": 100000}
HEADER = "#define TINY 3\nstruct tiny { int a; char b[TINY]; };\nint sl_add(int a, int b);\n"

FNS = ["add", "bump", "multi", "void", "pp", "mkpoint", "sum", "len", "nulls", "scale", "mix",
       "pvec", "short", "name", "cb", "work", "color", "nop"]
FOCUS = [["CFunction.__call__"], ["CLibrary.__call__", "CLibrary._make_obj_"],
         ["CLibraryMeta.__call__"], ["CFunction.__call__", "CLibrary.__getattr__"]]


def prepare(scratch):
    _prepare(scratch, 1)


def sched(rng):
    r = rng.random()
    if r < 0.5:
        return {"kind": "rand", "p": rng.choice([0.02, 0.1, 0.3])}
    if r < 0.75:
        return {"kind": "rand", "p": 0.02, "focus": rng.choice(FOCUS)}
    return {"kind": "pct", "d": rng.choice([1, 2, 4]), "k": rng.choice([60, 300, 1000]),
            "log": True}


def plan(rng, tier):
    n = [0]

    def nid():
        n[0] += 1
        return "o%d" % n[0]

    def call(fns=None):
        return K.rand_call(rng, fns or FNS)

    libs = [{"so": s, "prefix": rng.choice([None, ["sl_"]]), "lock": rng.random() < 0.6}
            for s in rng.sample(["a", "b", "c"], rng.choice([1, 2, 2, 3]))]
    free = [i for i, s in enumerate(libs) if not s["lock"]]
    k = rng.choice([1, 1, 2, 3])
    stay, held = [], set()
    slow = rng.random() < 0.2
    for i in range(k):
        if slow and i == 0:
            # opening other libraries and building other parsers may take turns
            stay.append({"op": "slow", "id": nid(), "how": rng.choice(["parse", "open", "tool"]),
                         "n": rng.randrange(2)})
            continue
        lib = rng.randrange(len(libs))
        held.add(lib)
        c = call()
        if rng.random() < 0.4:
            # inside a call made by a callback of another one
            c = {"fn": "cb", "x": rng.randrange(1, 99), "via": "kind", "inner": c}
        stay.append({"op": "stay", "id": nid(), "lib": lib, "call": c,
                     "at": rng.choice([1, 1, 1, 2, 2, 3, 4])})
    tasks = [{"name": "stay%d" % i, "role": "stay", "ops": [o]} for i, o in enumerate(stay)]
    fns = rng.sample(FNS, 3) if rng.random() < 0.4 else None
    if rng.random() < 0.4:
        # the very functions in which the others are
        fns = [stay[-1]["call"]["fn"]] if "call" in stay[-1] else None
    can = [i for i in range(len(libs)) if i in free or i not in held]
    for i in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            r = rng.random()
            if r < 0.4 or r < 0.75 and not can:
                o = dict(L.rand_lookup(rng))
                o.update(op="look", id=nid(), lib=rng.randrange(len(libs)))
            elif r < 0.75:
                o = {"op": "call", "id": nid(), "lib": rng.choice(can), "call": call(fns)}
            elif slow:
                o = {"op": "use", "id": nid()}
            elif r < 0.82:
                o = {"op": "again", "id": nid(), "lib": rng.randrange(len(libs))}
            elif r < 0.9:
                o = {"op": "new", "id": nid(), "n": rng.randrange(2), "call": rng.random() < 0.5,
                     "lock": rng.random() < 0.5, "list": rng.random() < 0.2}
            elif r < 0.95:
                o = {"op": "parse", "id": nid()}
            elif r < 0.98:
                o = {"op": "use", "id": nid()}
            else:
                o = {"op": "init", "id": nid()}
            ops.append(o)
        tasks.append({"name": "free%d" % i, "role": "free", "ops": ops,
                      "after": rng.random() < 0.7})
    if held and rng.random() < 0.5:
        for i in range(rng.choice([1, 2])):
            ops = [{"op": "call", "id": nid(), "lib": rng.choice(sorted(held)), "call": call(fns)}
                   for _ in range(rng.choice([1, 2]))]
            tasks.append({"name": "wait%d" % i, "role": "wait", "ops": ops})
    return {"tasks": tasks, "libs": libs, "warm": rng.random() < 0.5,
            "cfg": {"sched": sched(rng), "gc_rate": rng.choice([0, 0, 0.003]),
                    "instr": L.rand_instr(rng)}}


def run(env, plan, sim):
    from pyclibrary import CLibrary, CParser, init

    w = L.LibWorld(env, plan, sim)
    with open("tiny.h", "w") as f:
        f.write(HEADER)
    hdr = os.path.abspath("tiny.h")
    spare = []
    for i in range(2):
        spare.append(os.path.abspath("spare%d.so" % i))
        # a file of its own, and hence another library
        with open(spare[i], "wb") as f, open(w.so("a"), "rb") as g:
            f.write(g.read())
    specs = plan["libs"]
    libs, gets, Ts, early = [], [], [], []
    for s in specs:
        w.hook(s["so"])
        lib = w.open(s)
        libs.append(lib)
        Ts.append(K.types(lib))
        held = {}
        if plan["warm"]:
            for n in sorted(set(K.REAL.values())):
                held[n] = lib("functions", n)
        gets.append(K.getter(lib, held))
        k = K.Call(lib, gets[-1], {"fn": "bump", "x": 5, "via": "kind", "p": ["omit"], "kw": True},
                   Ts[-1])
        k.perform()
        early.append(k)
    mine = {}       # staying task -> events to go
    inside = []     # staying tasks that are inside now
    left = [sum(1 for tk in plan["tasks"] if tk["role"] == "free")]
    going = [sum(1 for tk in plan["tasks"] if tk["role"] == "stay")]
    gate, entered = "the others to finish", "a call to be under way"
    useful = [0]

    def on_event(t, key, ev, fn, arg):
        if t.id not in mine or ev == 1:
            return
        mine[t.id] -= 1
        if mine[t.id] > 0:
            return
        del mine[t.id]
        halt(t, "call")

    w.on_event = on_event

    def halt(t, where):
        inside.append(t)
        sim.wake(entered)
        sim.log("stays", t.id, where, left[0])
        if left[0]:
            sim.count("stays_" + where)
        while left[0]:
            sim.block(t, gate)
        inside.remove(t)

    def slow_open(real):
        def opn(file, *a, **kw):
            t = sim.active()
            if t is not None and t.id in slow and file == slow[t.id]:
                halt(t, "open")
            return real(file, *a, **kw)

        return opn

    slow = {}
    builtins.open, io.open = slow_open(builtins.open), slow_open(io.open)

    def tool(name, argv, shell, raw):
        t = sim.active()
        if t is not None and slow.get(t.id) == "tool":
            halt(t, "tool")
        return L.elf_file_tool(name, argv, shell, raw)

    L.procsim.install(tool)

    def stay(t, op):
        sim.begin(t, op["id"])
        if op["op"] == "slow":
            slow[t.id] = "tool" if op["how"] == "tool" else hdr
            try:
                if op["how"] == "parse":
                    CParser([hdr])
                else:
                    lib = CLibrary(spare[op["n"]], [hdr])
                    if lib.sl_add(2, 3)() != 5:
                        raise Violation("wrong-result", "sl_add of a new library")
            finally:
                del slow[t.id]
                going[0] -= 1
                sim.wake(entered)
            return
        i = op["lib"]
        mine[t.id] = op["at"]
        try:
            K.Call(libs[i], gets[i], op["call"], Ts[i]).perform()
        finally:
            mine.pop(t.id, None)
            going[0] -= 1
            sim.wake(entered)

    def free(t, op):
        o = op["op"]
        if o == "look":
            got, _ = L.outcome(libs[op["lib"]], op)
            with sim.quiet():
                want = L.ref(env, specs[op["lib"]], op)
            if got != want:
                raise Violation("wrong-lookup", "%s gave\n  %.1200r\ninstead of\n  %.1200r" % (
                    text(op), got, want))
        elif o == "call":
            i = op["lib"]
            K.Call(libs[i], gets[i], op["call"], Ts[i]).perform()
        elif o == "again":
            s = specs[op["lib"]]
            if w.open(s) is not libs[op["lib"]]:
                raise Violation("not-the-same", "opening the file again gave another object")
        elif o == "new":
            lib = CLibrary(spare[op["n"]], [hdr] if op["list"] else L.PARSERS[0],
                           lock_calls=op["lock"])
            if op["call"] and lib.sl_add(2, 3)() != 5:
                raise Violation("wrong-result", "sl_add of a new library")
            del lib
            gc.collect()
        elif o == "parse":
            p = CParser([hdr])
            if p.defs["values"] != {"TINY": 3} or set(p.defs["structs"]) != {"tiny"}:
                raise Violation("wrong-definitions", repr(p.defs["values"]))
        elif o == "use":
            for k in early:
                k.check()
        elif o == "init":
            try:
                init()
            except RuntimeError:
                pass
            else:
                raise Violation("initialised-again", "init() had an effect")

    def body(tk):
        def go(t):
            if tk["role"] == "stay":
                for op in tk["ops"]:
                    stay(t, op)
                return
            if tk["role"] == "wait":
                for op in tk["ops"]:
                    sim.begin(t, op["id"])
                    i = op["lib"]
                    K.Call(libs[i], gets[i], op["call"], Ts[i]).perform()
                    sim.count("waiting_calls")
                return
            try:
                while tk["after"] and not inside and going[0]:
                    sim.block(t, entered)
                for op in tk["ops"]:
                    sim.begin(t, op["id"])
                    n = len(inside)
                    free(t, op)
                    sim.count(op["op"])
                    if n:
                        useful[0] = 1
                    sim.log("done", t.id, op["id"], n)
            finally:
                left[0] -= 1
                if not left[0]:
                    sim.wake(gate)

        return go

    for tk in plan["tasks"]:
        sim.spawn(tk["name"], body(tk))
    sim.run()
    if sim.violation is None and sim.error is None:
        for key, raw in sorted(w.raw.items()):
            if ctypes.c_int.in_dll(raw, "simlib_gil_held").value:
                raise Violation("interpreter-held", "functions of library %s are called without "
                                "letting other threads run" % key)
    return {"nontrivial": bool(useful[0])}

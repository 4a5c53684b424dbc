"""C07: every call gets its own arguments and results."""

from .. import calls as K
from .. import libworld as L
from ..core import Violation
from ..libworld import prepare as _prepare

ID = "C07"
RULE = ("seeded schedules (source-line granularity plus switches inside the C functions) of 1-4 "
        "threads making calls with positional, keyword, omitted, NULL and own arguments, callbacks "
        "calling back in, and failing calls; every result is kept and checked again after later "
        "calls; non-trivial: at least two calls of one function whose results were both kept")
REAL = ["pyclibrary.c_library.CFunction/CallResult", "pyclibrary.backends.ctypes",
        "ctypes and libffi"]
STUB = ["C library (compiled test library with yields)", "external programs (file)",
        "locks (scheduled)"]
RUNS = {"quick": 8000, "thorough": 150000}


def prepare(scratch):
    _prepare(scratch, 1)


def oracle(req, wd):
    raise ValueError(req)


def sched(rng, n):
    if n == 1:
        return {"kind": "none"}
    r = rng.random()
    if r < 0.35:
        return {"kind": "rand", "p": rng.choice([0.02, 0.1, 0.3])}
    if r < 0.7:
        return {"kind": "rand", "p": 0.01,
                "focus": rng.choice([["CFunction.__call__"], ["CFunction.__call__", "CallResult.__init__"],
                                     ["CTypesCLibrary._get_pointer"],
                                     ["CFunction.__call__", "CTypesCLibrary._get_pointer",
                                      "CTypesCLibrary._get_type"]])}
    return {"kind": "pct", "d": rng.choice([1, 2, 3, 5]), "k": rng.choice([100, 400, 1500]),
            "log": True}


def plan(rng, tier):
    n = [0]

    def nid():
        n[0] += 1
        return "o%d" % n[0]

    k = rng.choice([1, 2, 2, 2, 3, 4])
    fns = None
    if rng.random() < 0.6:
        fns = rng.sample(["bump", "multi", "void", "pp", "nulls", "scale", "pvec", "cb", "fail",
                          "add", "mkpoint", "opt"], rng.choice([1, 2]))
    tasks = []
    for i in range(k):
        ops = []
        for _ in range(rng.choice([2, 3, 5] if k > 1 else [4, 8, 15])):
            r = rng.random()
            if r < 0.8:
                ops.append({"op": "call", "id": nid(), "call": K.rand_call(rng, fns)})
            elif r < 0.9:
                ops.append({"op": "check", "id": nid()})
            else:
                ops.append({"op": "poke", "id": nid(), "i": rng.randrange(5),
                            "ptr": rng.random() < 0.6})
        tasks.append({"name": "thr%d" % i, "ops": ops})
    return {"tasks": tasks, "lib": {"so": "a", "prefix": rng.choice([None, ["sl_"]]),
                                    "lock": rng.random() < 0.2},
            "warm": rng.random() < 0.7,
            "cfg": {"sched": sched(rng, k), "gc_rate": rng.choice([0, 0, 0.003]),
                    "stall": rng.choice([0, 0, 0, 0.1]),
                    "instr": L.rand_instr(rng)}}


def run(env, plan, sim):
    w = L.LibWorld(env, plan, sim)
    w.hook("a")
    lib = w.open(plan["lib"])
    T = K.types(lib)
    held = {}
    get = K.getter(lib, held)
    if plan["warm"]:
        for n in K.REAL.values():
            held[n] = lib("functions", n)
    done = []

    def body(ops):
        def go(t):
            for op in ops:
                sim.begin(t, op["id"])
                if op["op"] == "call":
                    c = K.Call(lib, get, op["call"], T)
                    c.perform()
                    done.append(c)
                    sim.count("calls")
                    sim.log("done", t.id, op["id"])
                elif op["op"] == "check":
                    with sim.quiet():
                        for c in done:
                            c.check()
                else:
                    with sim.quiet():
                        c = done[op["i"] % len(done)] if done else None
                        if c is None:
                            pass
                        elif op.get("ptr"):
                            sim.count("poked", c.poke_pointers())
                        else:
                            c.poke(-77)

        return go

    for tk in plan["tasks"]:
        sim.spawn(tk["name"], body(tk["ops"]))
    sim.run()
    for c in done:
        c.check()
    names = [c.c["fn"] for c in done if c.result is not None]
    return {"nontrivial": len(names) != len(set(names))}

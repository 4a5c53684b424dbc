"""C06: lock_calls serialises every call into the library."""

import ctypes

from .. import calls as K
from .. import libworld as L
from ..core import Violation
from ..libworld import prepare as _prepare
from .c07 import sched

ID = "C06"
RULE = ("seeded schedules of 2-5 threads calling functions of a library opened with lock_calls "
        "(obtained by attribute, kind, prefix or kept from before), with re-entrant calls from "
        "callbacks, failing calls and a second library in use at the same time; non-trivial: at "
        "least one switch to another thread while a call was inside the library")
REAL = ["pyclibrary.c_library (CLibrary, CFunction)", "pyclibrary.backends.ctypes",
        "ctypes and libffi"]
STUB = ["C library (compiled test library with yields)", "locks (scheduled RLock/Lock)",
        "external programs (file)"]
RUNS = {"quick": 8000, "thorough": 150000}


def prepare(scratch):
    _prepare(scratch, 1)


def oracle(req, wd):
    raise ValueError(req)


def plan(rng, tier):
    n = [0]

    def nid():
        n[0] += 1
        return "o%d" % n[0]

    k = rng.choice([2, 2, 3, 3, 4, 5])
    second = rng.choice([None, None, {"so": "b", "prefix": None, "lock": True},
                         {"so": "b", "prefix": ["sl_"], "lock": False}])
    fns = None
    if rng.random() < 0.5:
        fns = rng.sample(["bump", "multi", "cb", "fail", "add", "work", "acc"], 3)
    tasks = []
    for i in range(k):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            if fns and "acc" in fns and rng.random() < 0.4 or rng.random() < 0.3:
                c = {"fn": "acc", "x": rng.randrange(1, 100),
                     "via": rng.choice(["attr", "kind", "held", "short"])}
            else:
                c = K.rand_call(rng, [f for f in fns if f != "acc"] if fns else None)
            ops.append({"op": "call", "id": nid(), "call": c,
                        "lib": 1 if second and rng.random() < 0.25 else 0})
        tasks.append({"name": "thr%d" % i, "ops": ops})
    return {"tasks": tasks, "libs": [{"so": "a", "prefix": rng.choice([None, ["sl_"]]),
                                      "lock": True}] + ([second] if second else []),
            "warm": rng.random() < 0.5,
            "cfg": {"sched": sched(rng, k), "gc_rate": rng.choice([0, 0, 0.003]),
                    "stall": rng.choice([0, 0, 0, 0.1]),
                    "instr": L.rand_instr(rng)}}


def run(env, plan, sim):
    w = L.LibWorld(env, plan, sim)
    libs, gets, Ts = [], [], []
    locked = set()
    for s in plan["libs"]:
        w.hook(s["so"])
        lib = w.open(s)
        libs.append(lib)
        T = K.types(lib)
        held = {}
        if plan["warm"]:
            for n in K.REAL.values():
                held[n] = lib("functions", n)
        gets.append(K.getter(lib, held))
        Ts.append(T)
        if s.get("lock"):
            locked.add(s["so"])
    total = {"a": 0, "b": 0}
    seen = [0]
    entered = {}

    def on_event(t, key, ev, fn, arg):
        ins = w.inside[key]
        others = [x for x in ins if x[0] is not t]
        if key in locked:
            if others and ev == 0:
                raise Violation("overlap", "%s entered function %d of the locked library while %s "
                                "was inside function %d" % (t.name, fn, others[0][0].name,
                                                            others[0][1]))
            if fn == 2 and ev == 0:
                total[key] += arg
                entered[(key, t.id)] = total[key]
            if fn == 2 and ev == 1 and arg != entered[(key, t.id)]:
                raise Violation("lost-update", "sl_acc gave %d instead of %d" % (
                    arg, entered[(key, t.id)]))
        if len(ins) and sim.switches:
            seen[0] = 1

    w.on_event = on_event

    def body(ops):
        def go(t):
            for op in ops:
                i = op.get("lib", 0)
                if i >= len(libs):
                    continue
                sim.begin(t, op["id"])
                c = op["call"]
                if c["fn"] == "acc":
                    r = gets[i](c)(c["x"])
                    key = plan["libs"][i]["so"]
                    if key in locked and r() != entered[(key, t.id)]:
                        raise Violation("wrong-result", "sl_acc returned %d instead of %d" % (
                            r(), entered[(key, t.id)]))
                else:
                    K.Call(libs[i], gets[i], c, Ts[i]).perform()
                sim.count("calls")
                sim.log("done", t.id, op["id"])

        return go

    for tk in plan["tasks"]:
        sim.spawn(tk["name"], body(tk["ops"]))
    sim.run()
    if sim.violation is None and sim.error is None:
        for s in plan["libs"]:
            if w.inside[s["so"]]:
                raise Violation("harness", "calls still inside")
        # a last call from one more thread must not block
        def last(t):
            sim.begin(t, "last")
            for i, lib in enumerate(libs):
                if lib("functions", "sl_add")(2, 3)() != 5:
                    raise Violation("wrong-result", "last call")

        sim.spawn("last", last)
        sim.run_more()
    return {"nontrivial": bool(seen[0])}

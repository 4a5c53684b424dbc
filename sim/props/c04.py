"""C04: lookups do not depend on access history."""

import gc
import weakref

from .. import libworld as L
from .. import canon as C
from ..core import Violation
from ..libworld import oracle, prepare  # noqa: F401

ID = "C04"
RULE = ("seeded histories of 5-40 lookups, calls, array constructions and casts (a quarter of "
        "them failing: unknown types, missing symbols, unknown names or kinds) over 1-3 libraries "
        "sharing one or two parsers with different prefixes, with libraries dropped and reopened "
        "and garbage collections injected at source lines; non-trivial: at least one repeated or "
        "related lookup after another lookup")
REAL = ["pyclibrary.c_library (all)", "pyclibrary.backends.ctypes (all)",
        "pyclibrary.c_parser (definitions, Type.eval)", "ctypes and the dynamic linker"]
STUB = ["C library (compiled test library)", "external programs (file)", "locks (scheduled)",
        "garbage collector (triggered by the simulator)"]
RUNS = {"quick": 4000, "thorough": 150000}

PREFIXES = [None, ["sl_"], ["sl_", "slx_"], ["slx_", "sl_"], ["s"], []]


def plan(rng, tier):
    n = [0]

    def nid():
        n[0] += 1
        return "o%d" % n[0]

    k = rng.choice([1, 1, 2, 2, 3])
    sos = rng.sample(["a", "b", "c"], k)
    libs = [{"so": s, "prefix": rng.choice(PREFIXES), "parser": 0 if rng.random() < 0.8 else 1}
            for s in sos]
    pre = sorted({p for l in libs for p in (l["prefix"] or [])}, key=len, reverse=True) or ["sl_"]
    # a small pool so that lookups repeat and relate
    pool = [L.rand_lookup(rng, pre) for _ in range(rng.choice([3, 6, 12]))]
    ops = []
    for _ in range(rng.choice([5, 10, 20, 40])):
        r = rng.random()
        li = rng.randrange(k)
        if r < 0.85:
            o = dict(rng.choice(pool)) if rng.random() < 0.7 else L.rand_lookup(rng, pre)
            if rng.random() < 0.25 and "name" in o:
                # the same name through another way in
                if o["how"] == "attr":
                    o = {"how": "kind", "kind": rng.choice(sorted(L.NAMES)), "name": o["name"]}
                else:
                    o = {"how": "attr", "name": o["name"]}
            o.update(op="look", id=nid(), lib=li)
        elif r < 0.93:
            o = {"op": "call", "id": nid(), "lib": li, "fn": rng.choice(sorted(CALLS)),
                 "x": rng.randrange(1, 1000)}
        else:
            o = {"op": "reopen", "id": nid(), "lib": li}
        ops.append(o)
    return {"libs": libs, "tasks": [{"name": "main", "ops": ops}],
            "cfg": {"sched": {"kind": "none"}, "gc_rate": rng.choice([0, 0, 0.002, 0.02])}}


CALLS = {
    "add": lambda lib, x: (lib("functions", "sl_add")(x, 3)(), x + 3),
    "bump": lambda lib, x: (lib("functions", "sl_bump")(x)[1], x),
    "point": lambda lib, x: (lib("functions", "sl_mkpoint")(x, 2)().x, x),
    "pvec": lambda lib, x: (lib("functions", "sl_pvec")(
        lib("types", "sl_pair")(), 2)["total"], 0),
    "cb": lambda lib, x: (lib("functions", "sl_call")(
        lib("types", "sl_cb")(lambda v: v * 2), x)(), 2 * x + 1),
    "name": lambda lib, x: (lib("functions", "sl_name")(1)(), b"beta"),
    "scale": lambda lib, x: (lib("functions", "sl_scale")(2.0)(), 1.0),
    "toofew": None,
    "unknownkw": None,
}


def run(env, plan, sim):
    w = L.LibWorld(env, plan, sim, lines=bool(plan["cfg"].get("gc_rate")))
    specs = plan["libs"]
    libs = {}
    memo = {}
    classes = {}
    used = [0]

    def lib(i):
        if i not in libs:
            libs[i] = w.open(specs[i])
        return libs[i]

    def key(op):
        return (op["lib"], op["how"], op.get("kind"), op.get("name"))

    def go(t):
        for op in plan["tasks"][0]["ops"]:
            with sim.quiet():
                l = lib(op["lib"])
            sim.begin(t, op["id"])
            if op["op"] == "look":
                got, obj = L.outcome(l, op)
                with sim.quiet():
                    want = L.ref(env, specs[op["lib"]], op)
                    if got != want:
                        raise Violation("history-dependent", "%s gave\n  %.1500r\ninstead of\n  %.1500r"
                                        % (text(op), got, want))
                    if op["how"] in ("attr", "kind") and got[0] == "ok":
                        k = key(op)
                        if k in memo and memo[k] is not obj:
                            raise Violation("identity", "%s gave another object than before"
                                            % text(op))
                        if used[0]:
                            used[0] = 2
                        used[0] = used[0] or 1
                        memo[k] = obj
                    if got[0] == "ok" and op["how"] != "item":
                        cl = classes.setdefault(op["lib"], {})
                        C.record_classes(obj, cl)
                        for d, cs in cl.items():
                            if len(cs) > 1:
                                raise Violation("duplicate-type", "after %s two incompatible "
                                                "classes stand for the same C type %.300r"
                                                % (text(op), d))
                sim.count("look_" + got[0])
                sim.log("look", op["lib"], got[0])
            elif op["op"] == "call":
                call(l, op)
            else:
                with sim.quiet():
                    r = weakref.ref(l)
                    obj = None
                    for k in [k for k in memo if k[0] == op["lib"]]:
                        del memo[k]
                    libs.pop(op["lib"])
                    classes.pop(op["lib"], None)
                    del l
                    gc.collect()
                    sim.count("reopened" if r() is None else "kept")
            l = obj = cl = cs = None
        with sim.quiet():
            want = env.oracle.ask({"kind": "defs"})
            for p in L.PARSERS:
                got = C.canon_parser(p)
                if got != want:
                    raise Violation("definitions-changed", "the parser's definitions changed:\n  "
                                    + "\n  ".join(C.diff(got, want)))

    def call(l, op):
        f = CALLS[op["fn"]]
        sim.count("calls")
        if f is None:
            fn = l("functions", "sl_add")
            try:
                if op["fn"] == "toofew":
                    fn(op["x"])
                else:
                    fn(op["x"], nosuch=2)
            except TypeError:
                return
            raise Violation("call", "a bad call did not raise TypeError")
        got, want = f(l, op["x"])
        if got != want:
            raise Violation("call", "%s(%d) gave %r instead of %r" % (op["fn"], op["x"], got, want))

    sim.spawn("main", go)
    sim.run()
    return {"nontrivial": used[0] > 1}


def text(op):
    return {"attr": "lib%(lib)d.%(name)s", "kind": "lib%(lib)d(%(kind)r, %(name)r)",
            "item": "lib%(lib)d[%(kind)r]", "array": "build_array(lib%(lib)d, %(typ)r, %(size)r)",
            "cast": "cast_to(lib%(lib)d, ..., %(typ)r)"}[op["how"]] % op

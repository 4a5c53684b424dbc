"""C08: concurrent first uses never see half-built objects."""

from .. import calls as K
from .. import canon as C
from .. import libworld as L
from ..core import Violation
from ..libworld import oracle, prepare  # noqa: F401
from .c04 import text

ID = "C08"
RULE = ("seeded schedules (source-line granularity) of 2-4 threads doing first-time lookups, "
        "array constructions, casts and calls of related definitions on fresh libraries; every "
        "returned object is compared, at the moment it is returned, with what a lone thread gets; "
        "non-trivial: two threads looked up the same or related objects and at least one switch "
        "happened inside the package")
REAL = ["pyclibrary.c_library (all)", "pyclibrary.backends.ctypes (all)",
        "pyclibrary.c_parser (definitions, Type.eval)", "ctypes"]
STUB = ["C library (compiled test library)", "locks (scheduled)", "external programs (file)"]
RUNS = {"quick": 5000, "thorough": 150000}

FOCUS = [["CTypesCLibrary._get_struct", "CTypesCLibrary._get_type"],
         ["CLibrary.__call__", "CLibrary.__getattr__", "CLibrary._make_obj_"],
         ["CTypesCLibrary._build_struct", "CTypesCLibrary._fill_struct"],
         ["CFunction.__init__", "CTypesCLibrary._init_function", "CLibrary._get_function"],
         ["CLibrary.__call__"], ["CLibrary.__getattr__"]]
GROUPS = [["sl_a", "sl_b", "sl_u", "sl_node", "sl_list", "sl_alias1", "sl_alias2", "sl_alias3"],
          ["sl_ring1", "sl_ring2", "sl_ring3", "sl_missing"],
          ["sl_grid", "sl_mat", "sl_pair", "sl_point", "sl_mat_p"],
          ["sl_cbs", "sl_pcb", "sl_cb", "sl_call"],
          ["sl_bad", "sl_uses_bad", "sl_late", "sl_leaf", "sl_badarg"],
          ["sl_packed", "sl_aligned", "sl_paint", "sl_anon", "sl_anon_t"],
          ["sl_multi", "sl_point", "sl_pvec", "sl_mkpoint", "sl_scale", "sl_node"],
          ["sl_dual", "sl_tri", "sl_matrix", "sl_colors", "sl_color_t", "sl_color"]]


def sched(rng):
    r = rng.random()
    if r < 0.35:
        return {"kind": "rand", "p": rng.choice([0.02, 0.08, 0.25])}
    if r < 0.65:
        return {"kind": "rand", "p": 0.01, "focus": rng.choice(FOCUS)}
    return {"kind": "pct", "d": rng.choice([1, 2, 3, 5]), "k": rng.choice([60, 300, 1500]),
            "log": True}


def kinds_of(name):
    return [k for k in sorted(L.NAMES) if name in L.NAMES[k]] or ["structs"]


def plan(rng, tier):
    n = [0]

    def nid():
        n[0] += 1
        return "o%d" % n[0]

    k = rng.choice([1, 1, 1, 2])
    libs = [{"so": s, "prefix": rng.choice([None, ["sl_"], ["sl_", "slx_"]]), "parser": 0}
            for s in rng.sample(["a", "b", "c"], k)]
    if rng.random() < 0.7:
        g = rng.choice(GROUPS)
        pool = []
        for name in g:
            if rng.random() < 0.3 and name.startswith("sl_"):
                name = name[3:]
            if rng.random() < 0.4:
                pool.append({"how": "attr", "name": name})
            else:
                pool.append({"how": "kind", "kind": rng.choice(kinds_of(name)), "name": name})
        if rng.random() < 0.3:
            pool.append(L.rand_lookup(rng))
    else:
        pool = [L.rand_lookup(rng) for _ in range(rng.choice([1, 2, 4, 8]))]
    tasks = []
    for i in range(rng.choice([2, 2, 2, 3, 3, 4])):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            if rng.random() < 0.85:
                o = dict(rng.choice(pool))
                o.update(op="look", id=nid(), lib=rng.randrange(k))
            else:
                o = {"op": "call", "id": nid(), "lib": rng.randrange(k),
                     "call": K.rand_call(rng, ["bump", "multi", "mkpoint", "scale", "add", "pvec",
                                               "short", "fail"])}
            ops.append(o)
        tasks.append({"name": "thr%d" % i, "ops": ops})
    return {"libs": libs, "tasks": tasks,
            "cfg": {"sched": sched(rng), "gc_rate": rng.choice([0, 0, 0.003]),
                    "instr": L.rand_instr(rng)}}


def run(env, plan, sim):
    w = L.LibWorld(env, plan, sim)
    specs = plan["libs"]
    libs = [w.open(s) for s in specs]
    for s in specs:
        w.hook(s["so"])
    memo, classes = {}, {}
    touched = {}

    def look(t, op):
        l = libs[op["lib"]]
        got, obj = L.outcome(l, op)
        with sim.quiet():
            want = L.ref(env, specs[op["lib"]], op)
            if got != want:
                raise Violation("half-built", "%s gave\n  %.1200r\nbut a lone thread gets\n  %.1200r"
                                % (text(op), got, want))
            if got[0] == "ok":
                if op["how"] in ("attr", "kind"):
                    k = (op["lib"], op["how"], op.get("kind"), op.get("name"))
                    if k in memo and memo[k] is not obj:
                        raise Violation("identity", "%s gave two threads different objects"
                                        % text(op))
                    memo[k] = obj
                if op["how"] != "item":
                    C.record_classes(obj, classes.setdefault(op["lib"], {}))
            touched.setdefault(op["lib"], set()).add(t.id)
        sim.count("look_" + got[0])
        sim.log("look", t.id, op["id"], got[0])

    def body(ops):
        def go(t):
            T = {}
            for op in ops:
                sim.begin(t, op["id"])
                if op["op"] == "look":
                    look(t, op)
                else:
                    l = libs[op["lib"]]
                    if not T.get(op["lib"]):
                        T[op["lib"]] = K.types(l)
                    K.Call(l, K.getter(l), op["call"], T[op["lib"]]).perform()
                    sim.count("calls")
                    touched.setdefault(op["lib"], set()).add(t.id)

        return go

    for tk in plan["tasks"]:
        sim.spawn(tk["name"], body(tk["ops"]))
    sim.run()
    if sim.violation is None:
        for cl in classes.values():
            for d, cs in cl.items():
                if len(cs) > 1:
                    raise Violation("duplicate-type", "two incompatible classes stand for the same "
                                    "C type %.300r" % (d,))
        want = env.oracle.ask({"kind": "defs"})
        got = C.canon_parser(L.PARSERS[0])
        if got != want:
            raise Violation("definitions-changed", "\n  ".join(C.diff(got, want)))
    return {"nontrivial": sim.switches > 0 and any(len(s) > 1 for s in touched.values())}

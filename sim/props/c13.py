"""C13: an interrupted operation leaves no damage."""

import gc
import os
import weakref

from .. import calls as K
from .. import canon as C
from .. import core, runner
from .. import libworld as L
from ..core import SimAbort, Violation
from . import c09
from .c04 import text

ID = "C13"
RULE = ("KeyboardInterrupt raised at a seeded source line of the package inside one or more "
        "operations of 1-3 threads: opening libraries, looking up objects, calling functions (also "
        "of a locked library), building parsers with and without cache while headers change, and "
        "initialising; all other operations are compared with a reference that never saw an "
        "interruption; non-trivial: at least one operation was interrupted and another one "
        "followed or ran at the same time")
REAL = ["pyclibrary (all modules)", "pyparsing", "ctypes and the dynamic linker", "file system"]
STUB = ["locks (scheduled)", "C library (compiled test library)", "external programs (file)",
        "signal delivery (the interrupt is raised by the simulator where CPython may deliver one)"]
ASSUME = ["interrupts arrive at line starts of the package's own code; not inside handlers, nor "
          "between the end of a with/try body and its clean-up, where CPython never delivers one"]
RUNS = {"quick": 2600, "thorough": 100000}

HCACHE = None
BHDRS = None


def prepare(scratch):
    global HCACHE
    L.prepare(scratch, 0, fast=False)
    c09.prepare(scratch)
    HCACHE = os.path.join(scratch, "simlib.cache")
    # parse the header in another process: this one must stay uninitialised
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            from pyclibrary import CParser

            CParser([L.HDR], cache=HCACHE)
            rc = 0
        finally:
            os._exit(rc)
    _, st = os.waitpid(pid, 0)
    if st:
        raise core.HarnessError("parsing the header of the test library failed")


def load_parser():
    from pyclibrary import CParser

    L.PARSERS[:] = [CParser([L.HDR], cache=HCACHE)]


def oracle(req, wd):
    if req["kind"] in ("look", "defs"):
        load_parser()
        return L.oracle(req, wd)
    if req["kind"] == "build":
        for n, b in req["files"]:
            with open(os.path.join(wd, n), "w") as f:
                f.write(b)
        from pyclibrary import CParser

        return C.canon_parser(CParser([os.path.join(wd, n) for n, b in req["files"]],
                                      **req["kw"]))
    return c09.oracle(req, wd)


# --- plans ------------------------------------------------------------------------------

LIBFN = ["CTypesCLibrary._get_struct", "CTypesCLibrary._get_type", "CTypesCLibrary._build_struct",
         "CTypesCLibrary._fill_struct", "CLibrary.__call__", "CLibrary.__getattr__",
         "CLibrary._make_obj_", "CFunction.__init__", "CFunction.__call__",
         "CLibrary._get_function", "CTypesCLibrary._get_pointer", "CallResult.__init__",
         "CLibraryMeta.__call__", "CLibrary.__init__", "CTypesCLibrary._link_library",
         "Type.eval", "build_array", "cast_to"]
PARFN = ["CParser.__init__", "CParser.process_all", "CParser.load_cache", "CParser.write_cache",
         "CParser.import_dict", "CParser.add_def", "CParser.parse_defs", "CParser.preprocess",
         "CParser.load_file", "CParser._set_cache_mtime", "CParser.process_struct",
         "CParser.process_function", "CParser.eval", "CParser.build_parser"]


def rand_int(rng, fns, lines, new, op=None):
    r = rng.random()
    if op == "call" and r < 0.25:
        return ["cret", rng.choice([0, 0, 1])]
    if r < 0.55:
        return ["new", rng.randrange(new)]
    if r < 0.75:
        return int(lines ** rng.random())
    return [rng.choice(fns), int(40 ** rng.random()) - 1]


def sched(rng, k):
    if k == 1:
        return {"kind": "none"}
    r = rng.random()
    if r < 0.6:
        return {"kind": "rand", "p": rng.choice([0.02, 0.1, 0.25])}
    return {"kind": "pct", "d": rng.choice([1, 2, 4]), "k": rng.choice([60, 300, 1500]),
            "log": True}


def plan(rng, tier):
    r = rng.random()
    if r < 0.62:
        return plan_lib(rng)
    if r < 0.82:
        return plan_cache(rng)
    p = c09.plan(rng, tier)
    ops = [o for t in p["tasks"] for o in t["ops"]]
    for o in rng.sample(ops, rng.choice([1, 1, 2]) if len(ops) > 1 else 1):
        o["int"] = rng.choice([
            int(400 ** rng.random()), ["new", rng.randrange(300)], ["new", rng.randrange(80)],
            ["init", rng.randrange(12)],
            ["_init_cparser", rng.randrange(30)], ["init_clibrary", rng.randrange(50)],
            ["CParser.__init__", rng.randrange(30)]])
    p["kind"] = "init"
    return p


def plan_lib(rng):
    n = [0]

    def nid():
        n[0] += 1
        return "o%d" % n[0]

    k = rng.choice([1, 1, 2, 2, 3])
    libs = [{"so": s, "prefix": rng.choice([None, ["sl_"], ["sl_", "slx_"]]), "parser": 0,
             "lock": rng.random() < 0.5} for s in rng.sample(["a", "b", "c"], rng.choice([1, 1, 2]))]
    pool = [L.rand_lookup(rng) for _ in range(rng.choice([1, 2, 4]))]
    tasks = []
    for i in range(k):
        ops = []
        for _ in range(rng.choice([2, 3, 5]) if k > 1 else rng.choice([3, 6, 9])):
            r = rng.random()
            o = {"id": nid(), "lib": rng.randrange(len(libs))}
            if r < 0.5:
                o.update(rng.choice(pool) if rng.random() < 0.7 else L.rand_lookup(rng))
                o["op"] = "look"
            elif r < 0.75:
                o.update(op="call", call=K.rand_call(rng, [
                    "add", "bump", "multi", "void", "pp", "mkpoint", "sum", "len", "nulls",
                    "scale", "mix", "pvec", "short", "name", "color", "fail"]))
            elif r < 0.9:
                o["op"] = "open"
            else:
                o["op"] = "drop"
            if o["op"] != "drop" and rng.random() < 0.4:
                o["int"] = rand_int(rng, LIBFN, 300, {"open": 40, "call": 90}.get(o["op"], 150), o["op"])
            ops.append(o)
        tasks.append({"name": "thr%d" % i, "ops": ops})
    return {"kind": "lib", "libs": libs, "tasks": tasks,
            "cfg": {"sched": sched(rng, k), "instr": [], "cret": True}}


def plan_cache(rng):
    n = [0]

    def nid():
        n[0] += 1
        return "o%d" % n[0]

    k = rng.choice([1, 1, 2])
    tasks = []
    for i in range(k):
        ops = []
        for _ in range(rng.choice([2, 3, 4]) if k == 1 else 2):
            if ops and rng.random() < 0.25:
                ops.append({"op": "edit", "id": nid(), "h": rng.randrange(2)})
            o = {"op": "build", "id": nid(), "m": rng.choice([0, 0, 0, 1]),
                 "h": rng.choice([[0], [0, 1]]), "cache": rng.random() < 0.8,
                 "lazy": rng.random() < 0.2, "copy": rng.random() < 0.2}
            if rng.random() < 0.5:
                o["int"] = rand_int(rng, PARFN, 2500, 450)
            ops.append(o)
        tasks.append({"name": "thr%d" % i, "ops": ops})
    return {"kind": "cache", "tasks": tasks, "cfg": {"sched": sched(rng, k), "instr": []}}


# --- worlds -----------------------------------------------------------------------------


def run(env, plan, sim):
    kind = plan["kind"]
    if kind == "init":
        r = c09.run(env, plan, sim)
        r["nontrivial"] = sim.fault_counts.get("interrupt", 0) > 0
        return r
    hits = [0]
    after = [0]

    def guarded(t, op, fn):
        """Run an operation; True if it was interrupted."""
        if "int" in op:
            ia = op["int"]
            t.interrupt_at = ia if isinstance(ia, int) else tuple(ia)
        try:
            fn()
        except KeyboardInterrupt:
            t.interrupt_at = None
            if not any(f["kind"] == "interrupt" for f in t.op_faults):
                raise
            sim.log("interrupted", op["id"])
            sim.count("interrupted_" + op["op"])
            hits[0] += 1
            return True
        if any(f["kind"] == "interrupt" for f in t.op_faults):
            raise Violation("swallowed", "the KeyboardInterrupt raised in %s did not reach the "
                            "caller (%s)" % (op["op"], t.op_faults))
        t.interrupt_at = None
        sim.log("done", op["id"])
        if hits[0]:
            after[0] += 1
        return False

    (run_lib if kind == "lib" else run_cache)(env, plan, sim, guarded)
    return {"nontrivial": hits[0] > 0 and after[0] > 0}


def run_lib(env, plan, sim, guarded):
    load_parser()
    w = L.LibWorld(env, plan, sim)
    specs = plan["libs"]
    for s in specs:
        w.hook(s["so"])
    libs = {}
    refs = {}
    memo, classes = {}, {}

    def opened(i, o):
        with sim.quiet():
            for r in refs.setdefault(i, []):
                x = r()
                if x is not None and x is not o:
                    raise Violation("two-objects", "library %s has two live objects"
                                    % specs[i]["so"])
            refs[i].append(weakref.ref(o))
            libs[i] = o

    def lib(i):
        """The library, opened without interruption if need be."""
        o = libs.get(i)
        if o is None:
            o = w.open(specs[i])
            opened(i, o)
        return o

    def look(l, op):
        got, obj = L.outcome(l, op)
        t = sim.task()
        t.interrupt_at = None
        with sim.quiet():
            want = L.ref(env, specs[op["lib"]], op)
            if got != want:
                raise Violation("damaged", "%s gave\n  %.1200r\ninstead of\n  %.1200r" % (
                    text(op), got, want))
            if got[0] == "ok":
                if op["how"] in ("attr", "kind"):
                    k = (gen(l), op["how"], op.get("kind"), op.get("name"))
                    if k in memo and memo[k] is not obj:
                        raise Violation("identity", "%s gave two different objects" % text(op))
                    memo[k] = obj
                if op["how"] != "item":
                    C.record_classes(obj, classes.setdefault(gen(l), {}))

    gens = weakref.WeakKeyDictionary()

    def gen(l):
        """Number of a library object: a file may be opened several times."""
        if l not in gens:
            gens[l] = len(ngen)
            ngen.append(1)
        return gens[l]

    ngen = []

    def do(t, op):
        i = op["lib"]
        if op["op"] == "open":
            def fn():
                o = w.open(specs[i])
                t.interrupt_at = None
                opened(i, o)
        elif op["op"] == "look":
            l = lib(i)

            def fn():
                look(l, op)
        elif op["op"] == "call":
            l = lib(i)
            T = K.types(l)
            g = K.getter(l)

            def fn():
                c = K.Call(l, g, op["call"], T)
                c.perform()
        else:
            with sim.quiet():
                libs.pop(i, None)
            return
        guarded(t, op, fn)

    def body(ops):
        def go(t):
            for op in ops:
                sim.begin(t, op["id"])
                do(t, op)

        return go

    for tk in plan["tasks"]:
        sim.spawn(tk["name"], body(tk["ops"]))
    sim.run()
    if sim.violation is None and sim.error is None:

        def last(t):
            with sim.quiet():
                # another thread finds everything in order, and no lock held
                for i, s in enumerate(specs):
                    o = w.open(s)
                    opened(i, o)
                    T = K.types(o)
                    for c in LAST_CALLS:
                        K.Call(o, K.getter(o), dict(c), T).perform()
                for tk in plan["tasks"]:
                    for op in tk["ops"]:
                        if op["op"] == "look":
                            look(libs[op["lib"]], op)
                for cl in classes.values():
                    for d, cs in cl.items():
                        if len(cs) > 1:
                            raise Violation("duplicate-type", "two incompatible classes stand for "
                                            "the same C type %.300r" % (d,))
                want = env.oracle.ask({"kind": "defs"})
                got = C.canon_parser(L.PARSERS[0])
                if got != want:
                    raise Violation("definitions-changed", "\n  ".join(C.diff(got, want)))

        sim.spawn("last", last)
        sim.run_more()
    if sim.violation is None and sim.error is None:
        # interrupted openings must not keep the library alive either
        libs.clear()
        memo.clear()
        classes.clear()
        gc.collect()


LAST_CALLS = [{"fn": "bump", "x": 5, "via": "kind", "p": ["omit"], "kw": False},
              {"fn": "add", "x": 5, "y": 6, "via": "attr", "style": "pos"},
              {"fn": "mkpoint", "x": 5, "y": 6, "via": "kind"}]


def htext(h, v):
    return ("#define H%d_V %d\nint h%d_fn%d(int a, const char *b);\n"
            "struct h%d_s { int a[%d]; union { int x; float y; } u; };\n"
            "enum h%d_e { H%d_A = %d, H%d_B };\n"
            "#ifdef M1\n#define H%d_M M1\n#endif\n") % (h, v, h, v, h, 1 + v, h, h, v, h, h)


def run_cache(env, plan, sim, guarded):
    from pyclibrary import CParser

    version = [1, 1]
    clock = [10 ** 18]
    os.makedirs("inc")
    os.makedirs("cache")

    def path(h):
        return os.path.join(env.dir, "inc", "h%d.h" % h)

    def write(h):
        clock[0] += 10 ** 9
        with open(path(h) + ".new", "w") as f:
            f.write(htext(h, version[h]))
        os.utime(path(h) + ".new", ns=(clock[0], clock[0]))
        os.replace(path(h) + ".new", path(h))

    for h in (0, 1):
        write(h)
    with sim.quiet():
        base = CParser([path(1)])
        base_was = C.canon_parser(base)
    c09.CODES.install(sim)
    cache = os.path.join(env.dir, "cache", "c")
    done = []
    edits = [0]

    def kw(op):
        d = {}
        if op["m"]:
            d["macros"] = {"M1": "7"}
        return d

    def vers(op):
        return tuple(version[h] for h in op["h"])

    def want(op, vs):
        return env.oracle.ask({"kind": "build", "kw": kw(op), "files": [
            ["h%d.h" % h, htext(h, v)] for h, v in zip(op["h"], vs)]})

    def build(t, op):
        k = kw(op)
        cp = op["copy"] and op["h"] == [0]
        if cp:
            k["copy_from"] = base
        c = {"cache": cache} if op["cache"] else {}
        v0, e0 = vers(op), edits[0]
        files = [path(h) for h in op["h"]]
        if op["lazy"]:
            p = CParser(files, process_all=False, **k)
            p.process_all(**c)
        else:
            p = CParser(files, **c, **k)
        t.interrupt_at = None
        with sim.quiet():
            got = C.canon_parser(p)
            if not cp:
                if len(plan["tasks"]) == 1 or edits[0] == e0:
                    exp = [want(op, v0)]
                else:
                    exp = [want(op, x) for x in versions(op)]
                if got not in exp:
                    raise Violation("damaged", "a parser built after an interruption differs:\n  "
                                    + "\n  ".join(C.diff(got, exp[0])))
            done.append((p, got))

    def versions(op):
        import itertools

        return list(itertools.product(*[range(1, version[h] + 1) for h in op["h"]]))

    def body(ops):
        def go(t):
            for op in ops:
                sim.begin(t, op["id"])
                if op["op"] == "edit":
                    with sim.quiet():
                        version[op["h"]] += 1
                        edits[0] += 1
                        write(op["h"])
                else:
                    guarded(t, op, lambda: build(t, op))

        return go

    for tk in plan["tasks"]:
        sim.spawn(tk["name"], body(tk["ops"]))
    sim.run()
    if sim.violation is None and sim.error is None:

        def last(t):
            with sim.quiet():
                for op in [o for tk in plan["tasks"] for o in tk["ops"] if o["op"] == "build"]:
                    build(t, dict(op, copy=False))
                for p, was in done:
                    if C.canon_parser(p) != was:
                        raise Violation("definitions-changed", "a finished parser changed")
                if C.canon_parser(base) != base_was:
                    raise Violation("definitions-changed", "the copied parser changed")
                # (between creating a file and being told its name nothing can
                # be done about it, but it is empty then)
                left = [n for n in os.listdir("cache")
                        if n != "c" and os.path.getsize(os.path.join("cache", n))]
                if left:
                    raise Violation("stray-file", "an interrupted build left %s behind" % left)

        sim.spawn("last", last)
        sim.run_more()

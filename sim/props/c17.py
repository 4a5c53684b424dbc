"""C17: what the package hands out stays valid for as long as it is held."""

import ctypes
import gc
import os
import shutil
import weakref

from .. import calls as K
from .. import libworld as L
from ..core import Violation

ID = "C17"
RULE = ("seeded histories of 6-40 steps by 1-2 threads which get functions, types, instances, "
        "arrays, casts, callbacks, tables and call results from 1-3 libraries opened in different "
        "ways, derive further objects from those held (values of results, instances of types, "
        "pointers to instances, argument types, the library of a function) and drop libraries, "
        "parsers, files and objects in any order, with garbage collections at seeded source "
        "lines and inside C functions and freed memory overwritten by the allocator; everything "
        "held is used and compared with a model of its value again and again; non-trivial: "
        "something was used after what it came from was gone")
REAL = ["pyclibrary.c_library (all)", "pyclibrary.backends.ctypes (all)", "pyclibrary.c_parser (tables, cache "
        "loading)", "ctypes, libffi and the dynamic linker", "garbage collector"]
STUB = ["C library (compiled test library)", "external programs (file)", "locks (scheduled)",
        "moments of garbage collections (chosen by the simulator)",
        "memory allocator (CPython's debug allocator, overwrites what is freed)"]
RUNS = {"quick": 4000, "thorough": 150000}
HCACHE = None
CALLS = ["add", "bump", "multi", "multi", "multi", "void", "pp", "mkpoint", "mkpoint", "sum", "len",
         "nulls", "scale", "scale", "mix", "pvec", "short", "name", "color"]
KINDS = ["function", "function", "class", "class", "instance", "array", "array", "cast", "cast",
         "chain", "callback", "table", "call", "call", "call", "library"]


def prepare(scratch):
    global HCACHE
    L.prepare(scratch, 2)
    HCACHE = os.path.join(scratch, "simlib.cache")
    from pyclibrary import CParser

    CParser([L.HDR], cache=HCACHE)


def oracle(req, wd):
    raise ValueError(req)


def plan(rng, tier):
    n = [0]

    def nid():
        n[0] += 1
        return "o%d" % n[0]

    k = rng.choice([1, 1, 2, 2, 3])
    libs = [{"so": s, "prefix": rng.choice([None, ["sl_"]]), "lock": rng.random() < 0.2,
             "how": rng.choice(["shared", "owner", "owner", "headers", "object", "object+headers"]),
             "hook": rng.random() < 0.6}
            for s in rng.sample(["a", "b", "c"], k)]
    nt = rng.choice([1, 1, 2])
    kinds = KINDS if rng.random() < 0.6 else rng.sample(KINDS, 3)
    tasks = []
    for i in range(nt):
        ops = []
        for _ in range(rng.choice([6, 12, 20, 40] if nt == 1 else [6, 12])):
            r = rng.random()
            o = {"id": nid(), "i": rng.randrange(1000), "j": rng.randrange(1000)}
            if r < 0.38 or not ops:
                o.update(op="get", kind=rng.choice(kinds), lib=rng.randrange(k),
                         x=rng.randrange(1, 4000), call=K.rand_call(rng, CALLS))
            elif r < 0.58:
                o.update(op="derive", x=rng.randrange(1, 4000), call=K.rand_call(rng, CALLS),
                         only=rng.random() < 0.6)
            elif r < 0.7:
                o.update(op="use")
            elif r < 0.82:
                o.update(op="drop", what=rng.choice(["one", "one", "some", "but"]))
            elif r < 0.95:
                o.update(op="droplib", lib=rng.randrange(k), files=rng.random() < 0.3)
            else:
                o.update(op="gc")
            ops.append(o)
        tasks.append({"name": "thr%d" % i, "ops": ops})
    sched = {"kind": "none"}
    if nt > 1:
        sched = rng.choice([{"kind": "rand", "p": 0.02}, {"kind": "rand", "p": 0.1},
                            {"kind": "pct", "d": 3, "k": 1000, "log": True}])
    return {"libs": libs, "tasks": tasks,
            "cfg": {"sched": sched, "gc_rate": rng.choice([0, 0.002, 0.01, 0.03]),
                    "instr": L.rand_instr(rng)}}


# --- things which are held ------------------------------------------------------------


class Held:
    """One object together with what it must be; nothing else is kept alive."""

    def __init__(self, what, obj, check, parents=()):
        self.what = what
        self.obj = obj
        self._check = check
        self.parents = [weakref.ref(p) for p in parents if p is not None]

    def orphan(self):
        return any(p() is None for p in self.parents)

    def check(self):
        try:
            ok = self._check(self.obj)
        except Violation:
            raise
        except Exception as e:
            # do not keep the frames
            raise Violation("unusable", "using %s raised %s: %s" % (
                self.what, type(e).__name__, e)) from None
        if ok is not True:
            raise Violation("changed", "%s no longer has its value: %.300r" % (self.what, ok))


def same(got, want):
    return True if got == want else (got, want)


def call_of(c, f):
    """Make a call through a function object only."""
    lib = f.lib
    k = K.Call(lib, lambda c: f, c, K.types(lib))
    k.perform()
    k.keep = []
    k.lib = k.get = k.types = None
    return k


def check_result(k):
    k.check()
    return True


def check_function(name):
    c = {"sl_add": {"fn": "add", "x": 5, "y": 6, "style": "mix", "via": "held"},
         "sl_multi": {"fn": "multi", "x": 9, "p": ["omit", "omit", "omit"], "via": "held"},
         "sl_mkpoint": {"fn": "mkpoint", "x": 4, "y": 2, "via": "held"},
         "sl_pp": {"fn": "pp", "x": 31, "p": ["omit", "omit"], "via": "held"},
         "sl_name": {"fn": "name", "x": 2, "via": "held"},
         "sl_pvec": {"fn": "pvec", "x": 3, "p": ["omit"], "via": "held"}}[name]

    def check(f):
        call_of(c, f)
        return same((f.name, len(f.sig[1]), [t is f.arg_c_type(i) for i, t in
                                             enumerate(f.arg_types)]),
                    (name, {"sl_add": 2, "sl_multi": 4, "sl_mkpoint": 2, "sl_pp": 3, "sl_name": 1,
                            "sl_pvec": 3}[name], [True] * len(f.arg_types)))

    return check


def check_class(size, names):
    def check(cls):
        o = cls()
        got = (ctypes.sizeof(cls), tuple(f[0] for f in getattr(cls, "_fields_", ())))
        ctypes.memset(ctypes.addressof(o), 0x41, size)
        if bytes(o) != b"A" * size:
            return bytes(o)
        return same(got, (size, names))

    return check


def check_raw(so):
    f = so.sl_name
    f.restype = ctypes.c_char_p
    f.argtypes = [ctypes.c_int]
    return same((f(1), so.sl_add(2, 3)), (b"beta", 5))


CLASSES = [("structs", "sl_point"), ("structs", "sl_node"), ("structs", "sl_grid"),
           ("structs", "sl_a"), ("structs", "sl_b"), ("unions", "sl_u"), ("types", "sl_pair"),
           ("types", "sl_mat"), ("structs", "sl_packed"), ("structs", "sl_ring1"),
           ("types", "sl_alias2"), ("structs", "sl_anon")]
ELEMS = ["int", "double", "sl_byte", "unsigned short"]


class World:
    def __init__(self, env, plan, sim):
        self.env, self.plan, self.sim = env, plan, sim
        self.w = L.LibWorld(env, plan, sim)
        self.libs = {}
        self.held = []
        self.orphans = 0
        self.dirs = {}
        self.raws = {}
        for sp in plan["libs"]:
            if sp["hook"]:
                self.w.hook(sp["so"])
        self.w.on_event = self.event
        self.inside = 0

    def event(self, t, key, ev, fn, arg):
        # collections also while C code runs
        if self.plan["cfg"]["gc_rate"] and fn in (1, 2, 3, 4, 5) and not self.inside:
            self.inside = 1
            with self.sim.quiet():
                gc.collect()
                self.sim.count("gc_in_c")
            self.inside = 0

    def lib(self, i):
        if i in self.libs:
            return self.libs[i]
        from pyclibrary import CLibrary, CParser

        sp = self.plan["libs"][i]
        kw = {}
        if sp["prefix"]:
            kw["prefix"] = list(sp["prefix"])
        if sp["lock"]:
            kw["lock_calls"] = True
        so = self.w.so(sp["so"])
        if not sp["hook"]:
            # nobody else has this file loaded
            c = os.path.join(self.env.dir, os.path.basename(so))
            if not os.path.exists(c):
                shutil.copy(so, c)
            so = c
        if "object" in sp["how"]:
            so = ctypes.CDLL(so)
            if not self.raws.get(i):
                self.raws[i] = 1
                self.hold("loaded library", so, check_raw, ())
        with self.sim.quiet():
            hd = [L.HDR]
            if sp["how"] == "shared":
                hd = L.PARSERS[0]
            else:
                # a cache and header of its own which can be removed
                d = self.dirs.get(i)
                if d is None:
                    d = self.dirs[i] = os.path.join(self.env.dir, "d%d" % i)
                    os.makedirs(d)
                h, c = os.path.join(d, "x.cache"), None
                if not os.path.exists(h):
                    shutil.copy(HCACHE, h)
                c, h = h, L.HDR
                if sp["how"] in ("owner", "object"):
                    hd = CParser([h], cache=c)
                else:
                    kw["cache"] = c
            lib = CLibrary(so, hd, **kw)
        self.libs[i] = lib
        return lib

    def hold(self, *a):
        h = Held(*a)
        self.held.append(h)
        self.sim.count("held")
        return h

    # --- getting ---------------------------------------------------------------------

    def get(self, op):
        x = op["x"]
        l = self.lib(op["lib"])
        kind = op["kind"]
        sim = self.sim
        if kind == "function":
            name = ["sl_add", "sl_multi", "sl_mkpoint", "sl_pp", "sl_name", "sl_pvec"][x % 6]
            f = l("functions", name) if x % 2 else getattr(l, name)
            self.hold("function %s" % name, f, check_function(name), (l, ))
        elif kind == "class":
            k, n = CLASSES[x % len(CLASSES)]
            self.hold_class("%s %s" % (k, n), l(k, n), (l,))
        elif kind == "instance":
            self.instance(l("structs", "sl_point"), x, (l,))
        elif kind == "array":
            self.array(l, x)
        elif kind == "cast":
            self.cast(l, x)
        elif kind == "chain":
            self.chain(l("structs", "sl_node"), x, l)
        elif kind == "callback":
            self.callback(l, x)
        elif kind == "table":
            k = ["functions", "structs", "types", "values", "enums"][x % 5]
            want = len(L.PARSERS[1].defs[k])
            self.hold("table %s" % k, l[k], lambda t: same(len(t), want), (l,))
        elif kind == "call":
            get = K.getter(l)
            c = K.Call(l, get, op["call"], K.types(l))
            c.perform()
            self.result(c, l)
        elif kind == "library":
            def check(lib):
                got = (lib.sl_add(x, 1)(), lib("values", "SL_VERSION"), lib.sl_other is not None,
                       len(lib["structs"]) == len(L.PARSERS[1].defs["structs"]))
                return same(got, (x + 1, 42, True, True))

            self.hold("library", l, check)

    def result(self, c, parent=None):
        c.keep = []
        c.lib = c.get = c.types = None
        if c.result is not None:
            self.hold("result of %(fn)s" % c.c, c, check_result, (parent,))

    def hold_class(self, what, cls, parents):
        size = ctypes.sizeof(cls)
        names = tuple(f[0] for f in getattr(cls, "_fields_", ()))
        self.hold(what, cls, check_class(size, names), parents)

    def instance(self, cls, x, parents):
        o = cls()
        o.x, o.y = x, -x
        self.hold("instance", o, lambda o: same((o.x, o.y), (x, -x)), parents)

    def array(self, l, x):
        from pyclibrary.c_library import build_array

        n = 1 + x % 40
        r = x % 4
        if r == 0:
            vals = [(x + i) % 200 for i in range(n)]
            a = build_array(l, ELEMS[x % 4 if x % 3 else 0], n, vals)
            self.hold("array", a, lambda a: same(list(a), vals), (l,))
        elif r == 1:
            a = build_array(l, "int", (2, n))
            for i in range(n):
                a[1][i] = x + i
            # a row keeps the whole
            row = a[1] if x % 3 else a
            want = [x + i for i in range(n)]
            self.hold("array row", row, lambda a: same(list(a if len(a) == n and not hasattr(
                a[0], "_length_") else a[1]), want), (l, a) if row is not a else (l,))
        else:
            a = build_array(l, "sl_point", n)
            a[n - 1].x = x
            if r == 2:
                self.hold("struct array", a, lambda a: same(a[n - 1].x, x), (l,))
            else:
                e = a[n - 1]
                self.hold("array element", e, lambda e: same(e.x, x), (l, a))

    def cast(self, l, x, src=None):
        from pyclibrary.c_library import build_array, cast_to

        r = x % 4
        n = 1 + x % 30
        typ = None
        if r == 0:
            a = build_array(l, "int", n, [x + i for i in range(n)])
            typ = "sl_point_ptr" if x % 3 else l("types", "sl_point_ptr")
            p = cast_to(l, a, typ)
            want = x + 2 * (n // 2 - 1) if n > 1 else None
            self.hold("cast to point", p, lambda p: same(
                p[n // 2 - 1].x if n > 1 else None, want), (l,))
        elif r == 1:
            a = build_array(l, "sl_byte", n + 4, [(x + i) % 256 for i in range(n + 4)])
            p = cast_to(l, a, "sl_bytes")
            self.hold("cast to bytes", p, lambda p: same(p[: n + 4], [
                (x + i) % 256 for i in range(n + 4)]), (l,))
        elif r == 2:
            o = l("structs", "sl_node")()
            o.value = x * 0.5
            o.leaf.q[1][2] = x
            p = cast_to(l, ctypes.pointer(o), ["sl_list", "sl_alias3"][x % 3 == 0])
            self.hold("cast to node", p, lambda p: same(
                (p.contents.value, p[0].leaf.q[1][2]), (x * 0.5, x)), (l, o))
        else:
            o = l("structs", "sl_point")()
            o.x, o.y = x, x + 1
            p = cast_to(l, cast_to(l, ctypes.pointer(o), "sl_bytes"), "sl_point_ptr")
            self.hold("cast twice", p, lambda p: same((p[0].x, p.contents.y), (x, x + 1)), (l, o))

    def chain(self, node, x, l):
        """A list whose nodes are known to each other only."""
        head = None
        n = 2 + x % 5
        for i in range(n):
            o = node()
            o.value = float(x + i)
            o.leaf.tag = bytes([65 + i])
            if head is not None:
                o.next = ctypes.pointer(head)
            head = o

        def check(o):
            got = []
            p = o
            for i in range(n):
                got.append((p.value, p.leaf.tag))
                if not p.next:
                    break
                p = p.next.contents
            return same(got, [(float(x + i), bytes([65 + i])) for i in reversed(range(n))])

        self.hold("list", head, check, (l,))

    def callback(self, l, x):
        def f(v):
            return v + x % 100

        cb = l("types", "sl_cb")(f)
        if x % 2:
            self.hold("callback", cb, lambda cb: same(cb(5), 5 + x % 100), (l,))
        else:
            r = l.sl_call(cb, 7)
            del cb

            def check(r):
                return same((r(), r[1], r["cb"](1)), (8 + x % 100, 7, 1 + x % 100))

            self.hold("result of a call with callback", r, check, (l,))

    # --- deriving --------------------------------------------------------------------

    def derive(self, op):
        if not self.held:
            return
        x = op["x"]
        h = self.held[op["i"] % len(self.held)]
        o = h.obj
        p = (h,)
        if isinstance(o, K.Call):
            self.derive_result(h, o, op)
        elif h.what.startswith("function"):
            if x % 3 == 0:
                lib = o.lib
                self.hold("library of a function", lib, lambda lib: same(
                    lib.sl_add(x, 1)(), x + 1), p)
            elif x % 3 == 1 and o.name == "sl_multi":
                t = o.arg_c_type(3) if x % 2 else o.arg_c_type("o3")

                def check(t):
                    q = t(t._type_(x, 4))
                    return same((q[0].x, q.contents.y), (x, 4))

                self.hold("argument type", t, check, p)
            else:
                # through this function only
                fns = {"sl_add": "add", "sl_multi": "multi", "sl_mkpoint": "mkpoint", "sl_pp": "pp",
                       "sl_name": "name", "sl_pvec": "pvec"}
                c = dict(op["call"], fn=fns[o.name])
                c.setdefault("y", 3)
                c.setdefault("style", "mix")
                c["p"] = (list(c.get("p", ())) + ["omit"] * 3)[:{"multi": 3, "pp": 2}.get(
                    c["fn"], 1)]
                lib = o.lib
                k = K.Call(lib, lambda c: o, c, K.types(lib))
                k.perform()
                self.result(k, h)
        elif h.what in ("structs sl_point",):
            self.instance(o, x, p)
        elif h.what == "structs sl_node":
            self.chain(o, x, h)
        elif h.what in ("structs sl_grid", "structs sl_a"):
            v = o()
            if h.what.endswith("grid"):
                v.m[1][2], v.pts[1].y, v.deep[1][0][1] = x, -x, 3
                q = v.pts
                self.hold("member of a struct", q, lambda q: same(q[1].y, -x), p)
                self.hold("struct", v, lambda v: same((v.m[1][2], v.deep[1][0][1]), (x, 3)), p)
            else:
                v.p[2].x = x
                q = ctypes.pointer(v.p[2])
                self.hold("pointer to a member", q, lambda q: same(q[0].x, x), p)
        elif h.what == "instance":
            q = ctypes.pointer(o)
            want = o.x
            self.hold("pointer", q, lambda q: same(q.contents.x, want), p)
        elif h.what == "library":
            f = o("functions", "sl_multi")
            self.hold("function sl_multi", f, check_function("sl_multi"), p)
        else:
            return
        self.sim.count("derived")
        if op["only"] and h in self.held:
            self.held.remove(h)

    def derive_result(self, h, k, op):
        """A value of a result, to be held without it."""
        r = k.result
        ret, vals, names, guessed = k.expect
        vals = list(vals)
        i = op["j"] % (len(vals) + 1)
        x = op["x"]
        if i == len(vals):
            if x % 2:
                v = r()
                self.hold("return value of %(fn)s" % k.c, v, value_check(ret), (h,))
            else:
                # consumed later
                it = iter(r)
                next(it)
                gen = next(it)
                box = [gen, None]

                def check(box):
                    if box[1] is None:
                        # once only, whichever thread comes first
                        g, box[0] = box[0], None
                        if g is None:
                            return True
                        box[1] = list(g)
                    for v, want in zip(box[1], vals):
                        c = value_check(want)(v)
                        if c is not True:
                            return c
                    return same(len(box[1]), len(vals))

                self.hold("unpacked arguments of %(fn)s" % k.c, box, check, (h,))
        else:
            if i in guessed and x % 3 == 0:
                v = r.auto()[guessed.index(i)]
            else:
                v = r[i] if x % 2 else r[names[i]]
            self.hold("argument %s of %s" % (names[i], k.c["fn"]), v, value_check(vals[i]), (h,))
            if i in guessed and x % 5 == 0:
                a = r.args[i]
                w = vals[i]
                if isinstance(a, ctypes._Pointer) and k.c["fn"] == "multi":
                    self.hold("pointer made for %s" % names[i], a,
                              lambda a: value_check(w)(a[0]), (h,))


    # --- the rest ----------------------------------------------------------------------

    def check_all(self):
        for h in list(self.held):
            h.check()
            if h.orphan():
                self.orphans += 1

    def step(self, t, op):
        k = op["op"]
        if k in ("get", "derive"):
            try:
                getattr(self, k)(op)
            except (AttributeError, TypeError, IndexError) as e:
                raise Violation("unusable", "what was just obtained cannot be used (%s): %s: %s" % (
                    op, type(e).__name__, e)) from None
        elif k == "use":
            if self.held:
                self.held[op["i"] % len(self.held)].check()
        elif k == "drop":
            self.drop(op)
        elif k == "droplib":
            self.libs.pop(op["lib"], None)
            d = self.dirs.get(op["lib"])
            if op["files"] and d:
                for f in os.listdir(d):
                    os.remove(os.path.join(d, f))
        else:
            gc.collect()

    def drop(self, op):
        hs = self.held
        if not hs:
            return
        i = op["i"] % len(hs)
        if op["what"] == "one":
            del hs[i]
        elif op["what"] == "some":
            del hs[i:i + 1 + op["j"] % 4]
        else:
            hs[:] = [hs[i]]


def value_check(want):
    def check(v):
        if want is K.NULLARG:
            if isinstance(v, ctypes._Pointer):
                return same(bool(v), False)
            return same(v, None)
        if callable(want):
            r = want(v)
            return True if r else (v,)
        return True if K.approx(v, want) else (v, want)

    return check


def run(env, plan, sim):
    w = World(env, plan, sim)

    def body(ops):
        def go(t):
            for op in ops:
                sim.begin(t, op["id"])
                w.step(t, op)
                sim.log(op["op"], len(w.held))
                if op["op"] in ("drop", "droplib", "gc", "derive"):
                    with sim.quiet():
                        gc.collect()
                w.check_all()

        return go

    for tk in plan["tasks"]:
        sim.spawn(tk["name"], body(tk["ops"]))
    sim.run()
    # the libraries go, then the rest one after the other
    w.libs.clear()
    gc.collect()
    w.check_all()
    while w.held:
        w.held.pop(0)
        gc.collect()
        w.check_all()
    return {"nontrivial": bool(w.orphans)}

"""Calls of the simulated library with a model of what each must give (C06, C07, C13)."""

import ctypes

from .core import SimAbort, Violation

FAIL = ["argtype", "toofew", "kw", "nullint", "badstruct"]


def rand_call(rng, fns=None, depth=0):
    fn = rng.choice(fns or ["add", "bump", "bump", "bump", "multi", "multi", "multi", "void", "pp",
                            "mkpoint", "sum", "len", "nulls", "scale", "mix", "pvec", "short",
                            "name", "cb", "work", "color", "fail", "state", "nop", "opt"])
    c = {"fn": fn, "x": rng.randrange(1, 5000),
         "via": rng.choice(["attr", "kind", "held", "short"])}
    if rng.random() < 0.4:
        c["pos"] = True
    three = ["omit", "omit", "own", "none"]
    if fn == "add":
        c["style"] = rng.choice(["pos", "kw", "mix"])
        c["y"] = rng.randrange(1, 5000)
    elif fn in ("bump", "void", "opt"):
        c["p"] = [rng.choice(three)]
        c["kw"] = rng.random() < 0.5
    elif fn in ("multi", "pp", "nulls", "pvec", "scale"):
        c["p"] = [rng.choice(three) for _ in range({"multi": 3, "pp": 2, "nulls": 3, "pvec": 1,
                                                     "scale": 1}[fn])]
    elif fn == "mkpoint":
        c["y"] = rng.randrange(1, 5000)
    elif fn == "len":
        c["null"] = rng.random() < 0.3
    elif fn == "cb":
        # what the callback does: nothing, or calls into the library again
        r = rng.random()
        if depth < 2 and r < 0.6:
            c["inner"] = rand_call(rng, ["bump", "add", "work", "cb", "fail", "multi"], depth + 1)
        elif r < 0.75:
            c["raises"] = True
    elif fn == "work":
        c["x"] = rng.randrange(0, 4)
    elif fn == "fail":
        c["how"] = rng.choice(FAIL)
    return c


REAL = {"add": "sl_add", "bump": "sl_bump", "multi": "sl_multi", "void": "sl_void", "pp": "sl_pp",
        "mkpoint": "sl_mkpoint", "sum": "sl_sum", "len": "sl_len", "nulls": "sl_nulls",
        "scale": "sl_scale", "mix": "sl_mix", "pvec": "sl_pvec", "short": "slx_short",
        "name": "sl_name", "cb": "sl_call", "work": "sl_work", "color": "sl_color",
        "fail": "sl_bump", "acc": "sl_acc", "state": "sl_state", "nop": "sl_nop",
        "opt": "sl_opt"}


def getter(lib, held=None):
    """How a caller gets at a function."""
    held = {} if held is None else held

    def get(c):
        name = REAL[c["fn"]]
        via = c["via"]
        if via == "held":
            if name not in held:
                held[name] = lib("functions", name)
            return held[name]
        if via == "kind":
            return lib("functions", name)
        if via == "short" and getattr(lib, "_prefix_", None):
            return getattr(lib, name[3:] if name.startswith("sl_") else name)
        return getattr(lib, name)

    return get


def approx(a, b):
    return a == b or (isinstance(a, float) and abs(a - b) < 1e-9)


class Call:
    """One performed call: knows how to check its result, now and later."""

    def __init__(self, lib, get, c, types, on_raise=None):
        self.c = c
        self.lib = lib
        self.get = get
        self.types = types
        self.result = None
        self.expect = None       # (ret, [per-arg], guessed)
        self.keep = []
        self.on_raise = on_raise

    def perform(self):
        c, T = self.c, self.types
        fn = c["fn"]
        x = c["x"]
        f = self.get(c)
        args, kw = [], {}
        vals = []      # expected values of the arguments afterwards
        names = []
        guessed = []
        ret = None

        def opt(i, how, name, make, own_after, fresh_after, keyword):
            """One optional pointer argument."""
            names.append(name)
            if how == "omit":
                guessed.append(i)
                vals.append(fresh_after)
                return
            if how == "none":
                o = None
                vals.append(NULLARG)
            else:
                o = make()
                self.keep.append(o)
                vals.append(own_after)
            if c.get("pos") and len(args) == i:
                args.append(o)
            else:
                kw[name] = o

        if fn == "fail":
            return self.fail(f, x)
        if fn == "add":
            y = c["y"]
            names += ["a", "b"]
            vals += [x, y]
            if c["style"] == "pos":
                args = [x, y]
            elif c["style"] == "kw":
                kw = {"b": y, "a": x}
            else:
                args, kw = [x], {"b": y}
            ret = x + y
        elif fn == "bump":
            args = [x]
            names.append("a")
            vals.append(x)
            opt(1, c["p"][0], "io", lambda: ctypes.c_int(70), lambda v: v == 70 + x,
                lambda v: v == x, c["kw"])
            ret = 2 * x
        elif fn == "void":
            args = [x]
            names.append("a")
            vals.append(x)
            opt(1, c["p"][0], "out", lambda: ctypes.c_long(11), lambda v: v == 11 + 3 * x,
                lambda v: v == 3 * x, c["kw"])
            ret = None
        elif fn == "multi":
            args = [x]
            names.append("a")
            vals.append(x)
            opt(1, c["p"][0], "o1", lambda: ctypes.c_int(5), lambda v: v == 5 + x,
                lambda v: v == x, True)
            opt(2, c["p"][1], "o2", lambda: ctypes.c_double(1.5), lambda v: v == 1.5 + x * 0.5,
                lambda v: v == x * 0.5, True)
            opt(3, c["p"][2], "o3", lambda: T["point"](3, 4),
                lambda v: (v.x, v.y) == (3 + x, 4 - x), lambda v: (v.x, v.y) == (x, -x), True)
            ret = x + 7
        elif fn == "pp":
            args = [x]
            names.append("a")
            vals.append(x)
            opt(1, c["p"][0], "h", lambda: ctypes.pointer(ctypes.c_void_p(0x1000)),
                lambda v: v[0] == 0x1000 + x, lambda v: v == x, True)
            opt(2, c["p"][1], "status", lambda: ctypes.c_int(2), lambda v: v == 2 + x % 97,
                lambda v: v == x % 97, True)
            ret = x % 13
        elif fn == "mkpoint":
            args = [x, c["y"]]
            names += ["x", "y"]
            vals += [x, c["y"]]
            ret = lambda v: (v.x, v.y) == (x, c["y"])
        elif fn == "sum":
            arr = (ctypes.c_int * 3)(x, x + 1, 7)
            self.keep.append(arr)
            args = [arr, 3]
            names += ["arr", "n"]
            vals += [lambda v: list(v) == [x, x + 1, 7], 3]
            ret = 2 * x + 8
        elif fn == "len":
            s = b"z" * (x % 50)
            if c["null"]:
                args = [None]
                vals.append(NULLARG)
                ret = 12345
            else:
                args = [s]
                vals.append(s)
                ret = len(s)
            names.append("s")
        elif fn == "nulls":
            ret = 0
            for i, (n, mk) in enumerate((("p", lambda: ctypes.pointer(ctypes.c_int(1))),
                                         ("q", lambda: ctypes.c_int(1)),
                                         ("n", lambda: T["node"]()))):
                opt(i, c["p"][i], n, mk, lambda v: True, lambda v: True, True)
                if c["p"][i] == "none":
                    ret |= 1 << i
        elif fn == "scale":
            f2 = x * 0.5
            args = [f2]
            names.append("f")
            vals.append(f2)

            def own():
                n = T["node"]()
                n.value = 2.0
                return n

            # a struct with a member called value is reported as that value
            opt(1, c["p"][0], "n", own, lambda v: near(v, 2.0 * f2 + 1), lambda v: near(v, 1.0),
                True)
            ret = {"omit": 1.0, "own": 2.0 * f2 + 1, "none": -f2}[c["p"][0]]
        elif fn == "mix":
            args = [1.5, 2.0, x, 3, 4]
            names += ["f", "d", "l", "s", "c"]
            vals += list(args)
            ret = 1.5 + 4.0 + x * 3 + 12 + 20
        elif fn == "pvec":
            arr = T["pair"]()
            arr[0].x, arr[0].y, arr[1].x, arr[1].y = x, 2, 3, 1
            self.keep.append(arr)
            args = [arr, 2]
            names += ["pts", "n"]
            vals += [lambda v: v[0].x == x, 2]
            opt(2, c["p"][0], "total", lambda: ctypes.c_int(9), lambda v: v == 9 + 2 * x + 3,
                lambda v: v == 2 * x + 3, True)
            ret = 2
        elif fn == "short":
            args = [x]
            names.append("a")
            vals.append(x)
            ret = x - 100
        elif fn == "name":
            args = [x]
            names.append("i")
            vals.append(x)
            ret = [b"alpha", b"beta", b"gamma", b"delta"][x & 3]
        elif fn == "state":
            # something else if another call changed the library meanwhile
            ret = lambda v: v in (77, -77)
        elif fn == "opt":
            args = [x]
            names.append("a")
            vals.append(x)
            opt(1, c["p"][0], "b", lambda: ctypes.c_int(8), lambda v: v == 8 + x,
                lambda v: v == x, c["kw"])
            names.append("c")
            vals.append(x % 7)
            if len(args) == 2 and c["kw"]:
                args.append(x % 7)
            else:
                kw["c"] = x % 7
            ret = 3 * x + x % 7
        elif fn == "nop":
            pass
        elif fn == "color":
            args = [x]
            names.append("which")
            vals.append(x)
            ret = x + 10
        elif fn == "work":
            args = [x]
            names.append("n")
            vals.append(x)
            ret = x * (x + 1) // 2
        elif fn == "cb":
            inner = []
            self.inner = inner

            def cb(v):
                try:
                    if v != x:
                        raise Violation("wrong-argument", "callback got %r instead of %r" % (v, x))
                    if "inner" in c:
                        k = Call(self.lib, self.get, c["inner"], T, self.on_raise)
                        k.perform()
                        inner.append(k)
                    if c.get("raises"):
                        raise ValueError("callback failed")
                except ValueError:
                    raise
                except BaseException as e:
                    inner.append(e)
                    return 0
                return v + 5

            o = T["cb"](cb)
            self.keep.append(o)
            args = [o, x]
            names += ["cb", "x"]
            vals += [lambda v: v is o, x]
            # what a failing callback returns is undefined
            ret = (lambda v: True) if c.get("raises") else x + 6
        else:
            raise ValueError(fn)
        self.result = f(*args, **kw)
        self.expect = (ret, vals, names, guessed)
        if fn == "cb":
            for k in self.inner:
                if isinstance(k, BaseException):
                    raise k
            if "inner" in c and len(self.inner) != 1:
                raise Violation("callback", "the callback did not run exactly once")
        self.check()

    def fail(self, f, x):
        how = self.c["how"]
        try:
            if how == "argtype":
                f("not a number")
            elif how == "toofew":
                f(io=ctypes.c_int(4))
            elif how == "kw":
                f(x, nosuch=3)
            elif how == "nullint":
                f(None)
            else:
                f(x, self.types["node"]())
        except (SimAbort, Violation):
            raise
        except (TypeError, ctypes.ArgumentError):
            return
        raise Violation("bad-call-accepted", "a call that should fail (%s) did not" % how)

    def check(self):
        if self.result is None:
            return
        r = self.result
        ret, vals, names, guessed = self.expect

        def same(got, want, what):
            try:
                ok = want(got) if callable(want) else approx(got, want)
            except (AttributeError, TypeError, IndexError, ValueError):
                # something of another kind
                ok = False
            if not ok:
                raise Violation("wrong-result", "%s of %s is %r%s" % (
                    what, self.c, got, "" if callable(want) else " instead of %r" % (want,)))

        same(r(), ret, "return value")
        it, rest = r
        same(it, ret, "unpacked return value")
        rest = list(rest)
        if len(rest) != len(vals):
            raise Violation("wrong-result", "%d arguments instead of %d for %s" % (
                len(rest), len(vals), self.c))
        for i, (v, n) in enumerate(zip(vals, names)):
            for got, what in ((r[i], "[%d]" % i), (r[n], "[%r]" % n), (rest[i], "unpacked %d" % i)):
                if v is NULLARG:
                    if isinstance(got, ctypes._Pointer) and not got:
                        got = None
                    same(got, None, what)
                else:
                    same(got, v, what)
        auto = list(r.auto())
        if len(auto) != len(guessed):
            raise Violation("wrong-result", "%d auto-generated values instead of %d for %s" % (
                len(auto), len(guessed), self.c))
        for a, i in zip(auto, guessed):
            same(a, vals[i], "auto value for argument %d" % i)
        if getattr(self, "inner", None):
            for k in self.inner:
                if isinstance(k, Call):
                    k.check()

    def poke(self, v):
        """Overwrite an argument in this result only."""
        if self.result is None or not self.expect[1] or 0 in self.expect[3]:
            return
        if self.c["fn"] == "cb":
            return
        if self.c["x"] % 2:
            self.result[0] = v
        else:
            self.result[self.expect[2][0]] = v
        self.expect[1][0] = v

    def poke_pointers(self):
        """Use the pointers of this result the way their owner may."""
        if self.result is None or self.c["fn"] == "cb":
            return 0
        vals, guessed = self.expect[1], self.expect[3]
        n = 0
        for i, v in enumerate(list(vals)):
            p = self.result.args[i]
            if v is NULLARG and isinstance(p, ctypes._Pointer):
                # no longer NULL, but only in this result
                p.contents = p._type_()
                vals[i] = lambda got: bool(got)
                n += 1
            elif i in guessed and isinstance(p, ctypes._Pointer) and p._type_ is ctypes.c_int:
                p[0] = -123
                vals[i] = -123
                n += 1
        return n


NULLARG = object()


def near(a, b):
    return abs(a - b) < 1e-9


def types(lib):
    return {"point": lib("structs", "sl_point"), "node": lib("structs", "sl_node"),
            "pair": lib("types", "sl_pair"), "cb": lib("types", "sl_cb")}

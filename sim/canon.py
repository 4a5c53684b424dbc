"""Canonical forms used to compare definitions and ctypes objects."""

import ctypes


def canon(v, depth=0):
    """Order-insensitive (for dicts), type-aware canonical form; hashable."""
    if depth > 60:
        return "<deep>"
    tn = type(v).__name__
    quals = getattr(v, "type_quals", None) if isinstance(v, tuple) else None
    if isinstance(v, dict):
        items = sorted(
            ((repr(k), canon(x, depth + 1)) for k, x in v.items()), key=lambda kv: kv[0]
        )
        kind = "D" if tn in ("dict", "Enum") else tn
        return (kind, tuple(items))
    if isinstance(v, tuple):
        q = ()
        if quals is not None:
            q = canon(tuple(tuple(x) for x in quals), depth + 1)
            return (tn, q, tuple(canon(x, depth + 1) for x in v))
        return ("t", tuple(canon(x, depth + 1) for x in v))
    if isinstance(v, list):
        return ("l", tuple(canon(x, depth + 1) for x in v))
    if tn == "ParseResults":
        return ("l", tuple(canon(x, depth + 1) for x in v.as_list()))
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return (tn, repr(v))
    if isinstance(v, type):
        return ("cls", v.__name__)
    return (tn, repr(v))


def canon_defs(defs):
    return canon({k: v for k, v in defs.items()})


def canon_parser(p):
    """Everything C01/C10/C11 compare of a parser.

    Headers without any definition may or may not have an entry in file_defs
    (they never have one when parsed), so empty entries are dropped.
    """
    fd = {}
    for f, d in p.file_defs.items():
        d = {k: x for k, x in d.items() if x}
        if d:
            fd[f] = d
    defs = {k: x for k, x in p.defs.items()}
    return (canon(defs), canon(fd))


def diff(a, b, path="", out=None, limit=6):
    """Short human-readable difference of two canonical forms."""
    if out is None:
        out = []
    if len(out) >= limit or a == b:
        return out
    if (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and len(b) == 2
            and a[0] == b[0] and isinstance(a[0], str)
            and isinstance(a[1], tuple) and isinstance(b[1], tuple)
            and all(isinstance(x, tuple) and len(x) == 2 for x in a[1] + b[1])):
        da, db = dict(a[1]), dict(b[1])
        for k in sorted(set(da) | set(db)):
            if len(out) >= limit:
                break
            if k not in da:
                out.append("%s/%s: missing, expected %.200r" % (path, k, db[k]))
            elif k not in db:
                out.append("%s/%s: unexpected %.200r" % (path, k, da[k]))
            else:
                diff(da[k], db[k], path + "/" + str(k), out, limit)
        return out
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and len(a) > 0:
        n = len(out)
        for i, (x, y) in enumerate(zip(a, b)):
            diff(x, y, "%s[%d]" % (path, i), out, limit)
        if len(out) > n:
            return out
    out.append("%s: got %.300r, expected %.300r" % (path, a, b))
    return out


def describe(v, seen=None):
    """Structural description of what a lookup returned (ctypes aware)."""
    if seen is None:
        seen = {}
    if isinstance(v, type):
        return describe_type(v, seen)
    if v is None:
        return ("NoneType", "None")
    tn = type(v).__name__
    if hasattr(v, "func") and hasattr(v, "sig"):
        return (
            "function", getattr(v, "name", None), canon(v.sig),
            describe(getattr(v, "res_type", None), seen),
            tuple(describe(x, seen) for x in (v.func.argtypes or ())),
            describe(v.func.restype, seen),
            tuple(getattr(v, "req_args", None) or ()),
        )
    return canon(v)


def describe_type(c, seen):
    if c in seen:
        return ("ref", seen[c])
    if issubclass(c, (ctypes.Structure, ctypes.Union)):
        seen[c] = len(seen)
        kind = "struct" if issubclass(c, ctypes.Structure) else "union"
        # the fixed repr names the C tag
        fields = []
        for f in getattr(c, "_fields_", ("<no fields>",)):
            if isinstance(f, str):
                fields.append(f)
                continue
            d = getattr(c, f[0], None)
            fields.append(
                (f[0], describe_type(f[1], seen) if isinstance(f[1], type) else repr(f[1]),
                 tuple(f[2:]), getattr(d, "offset", None), getattr(d, "size", None))
            )
        return (
            kind, tuple(fields), ctypes.sizeof(c), ctypes.alignment(c),
            getattr(c, "_pack_", None), tuple(getattr(c, "_anonymous_", ())),
            canon(getattr(c, "_defaults_", None)),
        )
    if issubclass(c, ctypes.Array):
        return ("array", c._length_, describe_type(c._type_, seen), ctypes.sizeof(c))
    if issubclass(c, ctypes._Pointer):
        t = getattr(c, "_type_", None)
        return ("pointer", describe_type(t, seen) if isinstance(t, type) else repr(t))
    if issubclass(c, ctypes._CFuncPtr):
        return (
            "funcptr",
            tuple(describe(x, seen) for x in (getattr(c, "_argtypes_", None) or ())),
            describe(getattr(c, "_restype_", None), seen),
            getattr(c, "_flags_", None),
        )
    if issubclass(c, ctypes._SimpleCData):
        return ("simple", c._type_, ctypes.sizeof(c))
    return ("type", c.__module__, c.__qualname__)


def record_classes(v, out, seen=None):
    """All struct and union classes reachable from an object, by description."""
    if seen is None:
        seen = set()
    if hasattr(v, "func") and hasattr(v, "sig"):
        for x in list(v.func.argtypes or ()) + [v.func.restype]:
            record_classes(x, out, seen)
        return
    if not isinstance(v, type) or v in seen:
        return
    seen.add(v)
    if issubclass(v, (ctypes.Structure, ctypes.Union)):
        out.setdefault(describe_type(v, {}), set()).add(v)
        for f in getattr(v, "_fields_", ()):
            record_classes(f[1], out, seen)
    elif issubclass(v, (ctypes.Array, ctypes._Pointer)):
        record_classes(getattr(v, "_type_", None), out, seen)
    elif issubclass(v, ctypes._CFuncPtr):
        for x in tuple(getattr(v, "_argtypes_", None) or ()) + (getattr(v, "_restype_", None),):
            record_classes(x, out, seen)

"""What C15 does with a parser, in a run, its reference and fresh interpreters."""

import os
import re

from . import hgen

KWARGS = [{}, {}, {"macros": {"FEATURE": ""}}, {"macros": {"LEVEL": "4"}},
          {"macros": {"LEVEL": "4", "OTHER": "", "API_CALL": ""}},
          {"values": {"LEVEL": 4}}, {"types": {"TOKEN_A": ("int",), "TOKEN_B": ("long", "*")}},
          {"types": {"foo": ("int",)}, "macros": {"FEATURE": "1"}}]
REPLACES = [None, None, {"TOKEN_A": "int", "TOKEN_B": "char"}, {"TOKEN_B": "TOKEN_A", "TOKEN_A": "double"},
            {"int": "long"}, {"void": "char", "char": "short"}]


def base(f):
    return f and os.path.basename(f)


def names(spec):
    return ["p%d.h" % h for h in spec["hs"]]


def ordered(v, depth=0):
    """Like canon.canon, but it keeps the order of dicts."""
    if depth > 60:
        return "<deep>"
    tn = type(v).__name__
    if isinstance(v, dict):
        return ("D", tuple((repr(k), ordered(x, depth + 1)) for k, x in v.items()))
    if isinstance(v, (tuple, list)):
        q = getattr(v, "type_quals", None)
        q = ordered([list(x) for x in q], depth + 1) if q is not None else ()
        return ("l" if isinstance(v, list) else "t", q,
                tuple(ordered(x, depth + 1) for x in v))
    if tn == "ParseResults":
        return ordered(v.as_list(), depth)
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return (tn, repr(v))
    if isinstance(v, (set, frozenset)):
        return ("set", tuple(sorted(repr(x) for x in v)))
    return (tn,)


def kwargs(spec):
    from pyclibrary.c_parser import Type

    kw = {k: dict(v) for k, v in KWARGS[spec["kw"]].items()}
    if "types" in kw:
        kw["types"] = {k: Type(*v) for k, v in kw["types"].items()}
    if REPLACES[spec["rep"]] is not None:
        kw["replace"] = dict(REPLACES[spec["rep"]])
    return kw


def construct(spec, d, spell="abs", how="direct"):
    """d: absolute path of the headers; with "rel" and "name" they are found from there."""
    from pyclibrary import CParser

    fs = names(spec)
    if spell == "abs":
        fs = [os.path.join(d, f) for f in fs]
    elif spell == "rel":
        fs = [os.path.relpath(os.path.join(d, f)) for f in fs]
    kw = kwargs(spec)
    if spec.get("copy"):
        kw["copy_from"] = [construct(s, d) for s in spec["copy"]]
    if how == "lazy":
        p = CParser(fs, process_all=False, **kw)
        p.process_all()
        return p
    if how == "steps":
        rep = kw.pop("replace", None)
        p = CParser(process_all=False, **kw)
        for f in p.find_headers(fs):
            p.load_file(f, rep)
        p.process_all()
        return p
    return CParser(fs, **kw)


def view(p):
    """Everything a parser says, in order; headers are known by their base name."""
    fd = {base(f): {k: x for k, x in d.items() if x} for f, d in p.file_defs.items()}
    q = []
    for what in ("_1", re.compile("^g[0-9]*_s"), "LEVEL"):
        q.append([(base(x[0]),) + tuple(x[1:]) for x in p.find(what)])
    for t in sorted(p.defs["types"])[:6] + ["TOKEN_A", "TOKEN_B", "foo", "int32_t", "struct s"]:
        try:
            q.append((p.is_fund_type(t), p.eval_type([t])))
        except Exception as e:
            q.append(type(e).__name__)
    for what in ("LEVEL", "TOKEN_A", "struct"):
        q.append([(base(x[0]),) + tuple(x[1:]) for x in p.find_text(what)])
    return (ordered(p.defs), ordered({k: v for k, v in fd.items() if v}),
            ordered(q))


def build(spec, d):
    try:
        p = construct(spec, d)
    except Exception as e:
        return ("exc", type(e).__name__)
    return ("ok", view(p))


def write(spec, d):
    for s in spec.get("copy", ()):
        write(s, d)
    for h, n in zip(spec["hs"], names(spec)):
        f = os.path.join(d, n)
        if not os.path.exists(f):
            with open(f, "w", encoding="utf-8") as o:
                o.write(hgen.text(h))

"""C10: parsers in different threads do not influence each other."""

import os
import re

from .. import cacheworld as W
from .. import canon as C
from .. import core, runner
from ..core import SimAbort, Violation

ID = "C10"
RULE = ("seeded schedules (source-line granularity, including inside parse actions, and at the "
        "grammar library's lock) of 2-4 threads building parsers over the same or different "
        "headers, with shared copy_from parsers, replacements, macros and cache files, while "
        "others register header directories and query finished parsers; every parser is compared "
        "with the same parser built alone in a pristine process; non-trivial: two parsers were "
        "under construction at the same time and a switch happened inside the package")
REAL = ["pyclibrary.c_parser (all)", "pyclibrary.utils (header search)", "pyclibrary.init",
        "pyparsing (with its global memo)", "file system"]
STUB = ["locks (scheduled)"]
RUNS = {"quick": 650, "thorough": 40000}

CODES = None
HDIR = None
PHASES = ["CParser.process_all", "CParser.preprocess", "CParser.parse_defs",
          "CParser.remove_comments", "CParser.load_file", "CParser.__init__",
          "CParser.import_dict", "CParser.add_def", "CParser.find_headers"]
ACTIONS = ["CParser.process_type", "CParser.process_declarator", "CParser.process_struct",
           "CParser.process_enum", "CParser.process_function", "CParser.process_variable",
           "CParser.process_typedef", "CParser.eval_expr", "CParser.eval", "recombine",
           "CParser.packing_at", "CParser.add_def"]
MACROS = ["CParser.preprocess", "CParser.process_macro_defn", "CParser.compile_fn_macro",
          "CParser.expand_macros", "CParser.expand_fn_macro", "CParser.eval_preprocessor_expr",
          "CParser.preprocess.pa"]
PACK = ["CParser.preprocess", "CParser.packing_at", "CParser.process_struct"]
FOCUS = [PHASES, PACK, ACTIONS, MACROS, ["CParser.build_parser", "CParser.parse_defs"],
         ["CParser.import_dict", "CParser.add_def", "CParser.rem_def"],
         ["CParser.find_headers", "find_header", "add_header_locations", "CParser.load_file"],
         ["CParser.load_cache", "CParser.write_cache", "CParser._set_cache_mtime"]]
STYLES = [i for i, s in enumerate(W.STYLES) if "bigpad" not in s and "pad" not in s]
MTIME = 10 ** 9


def fname(h, v, s):
    return "h%d_%d_%d.h" % (h, v, s)


def prepare(scratch):
    global CODES, HDIR
    HDIR = os.path.join(scratch, "hdr")
    for d in ("a", "b"):
        os.makedirs(os.path.join(HDIR, d))
    for h in range(3):
        for v in (1, 2):
            for s in STYLES:
                p = os.path.join(HDIR, "ab"[h % 2], fname(h, v, s))
                with open(p, "wb") as f:
                    f.write(W.header_bytes(h, v, s))
                os.utime(p, (MTIME, MTIME))
    for v in (1, 2):
        p = os.path.join(HDIR, "a", "base%d.h" % v)
        with open(p, "w") as f:
            f.write(W.base_text(v))
        os.utime(p, (MTIME, MTIME))
    from pyclibrary import init

    init()
    CODES = core.LinePoints(core.package_code(os.path.join(runner.REPO, "pyclibrary") + os.sep))


# --- parsers --------------------------------------------------------------------------
# spec: {"files": [[h, v, style]...], "replace", "kwargs", "copy": [spec...], "spell", "how"}


def rand_spec(rng):
    o = W.rand_opts(rng)
    st = [s for s in W.relevant_styles([o]) if s in STYLES]
    if rng.random() < 0.3:
        st = [s for s in STYLES if "pack" in W.STYLES[s]]
    return {"files": [[h % 3, rng.choice([1, 2]), rng.choice(st)] for h in o["files"]][:2],
            "replace": o["replace"], "kwargs": o["kwargs"], "encoding": o["encoding"]}


def paths(spec):
    out = []
    for h, v, s in spec["files"]:
        n = fname(h, v, s)
        if spec.get("spell") == "name":
            out.append(n)
        else:
            out.append(os.path.join(HDIR, "ab"[h % 2], n))
    return out


def kwargs(spec):
    return W.build_kwargs(dict(spec, copy=[]), None)


def construct(spec, copy, how=None, cache=None):
    from pyclibrary import CParser

    kw = kwargs(spec)
    if copy:
        kw["copy_from"] = copy[0] if len(copy) == 1 else copy
    if cache:
        kw["cache"] = cache
    if how == "lazy":
        kw.pop("cache", None)
        p = CParser(paths(spec), process_all=False, **kw)
        p.process_all(cache=cache)
        return p
    if how == "steps":
        kw.pop("cache", None)
        r, e = kw.pop("replace", None), kw.pop("encoding", "utf-8")
        p = CParser(process_all=False, **kw)
        for f in p.find_headers(paths(spec)):
            p.load_file(f, r, e)
        p.process_all(cache=cache)
        return p
    if how == "unparsed":
        kw.pop("cache", None)
        p = CParser(paths(spec), process_all=False, **kw)
        p.process_all(return_unparsed=True)
        return p
    return CParser(paths(spec), **kw)


def base_spec(v):
    return {"base": v, "files": [], "replace": None, "kwargs": {}, "encoding": "utf-8"}


def make_base(v):
    from pyclibrary import CParser

    return CParser([os.path.join(HDIR, "a", "base%d.h" % v)])


QUERIES = [["find", "MARK_h0"], ["find", "defined_everywhere"], ["findre", "^h[01]_"],
           ["text", "MARK"], ["eval", ["BASE_T"]], ["eval", ["h0_color_t"]],
           ["eval", ["h1_callback"]], ["eval", ["struct h0_packed", "*"]],
           ["eval", ["h0_alias", "*"]], ["str"], ["fund", "unsigned int"], ["eval", ["nosuch"]],
           ["eval", ["h2_cvp"]]]


def query(p, q):
    try:
        if q[0] == "find":
            r = sorted(p.find(q[1]), key=repr)
        elif q[0] == "findre":
            r = sorted(p.find(re.compile(q[1])), key=repr)
        elif q[0] == "text":
            r = p.find_text(q[1])
        elif q[0] == "eval":
            r = p.eval_type(tuple(q[1]))
        elif q[0] == "fund":
            r = p.is_fund_type(q[1])
        else:
            r = str(p)
    except (SimAbort, Violation):
        raise
    except Exception as e:
        return ("exc", type(e).__name__)
    return ("ok", C.canon(r))


def oracle(req, wd):
    from pyclibrary import utils

    utils.add_header_locations([os.path.join(HDIR, "a"), os.path.join(HDIR, "b")])

    def mk(spec):
        if spec.get("base"):
            return make_base(spec["base"])
        return construct(spec, [mk(s) for s in spec.get("copy", ())], spec.get("how"))

    p = mk(req["spec"])
    if req["kind"] == "parse":
        return C.canon_parser(p)
    return query(p, req["q"])


def plan(rng, tier):
    n = [0]

    def nid():
        n[0] += 1
        return "o%d" % n[0]

    pool = [rand_spec(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    k = rng.choice([2, 2, 2, 3, 4])
    tasks = []
    for i in range(k):
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            r = rng.random()
            if r < 0.75 or not ops:
                o = {"op": "build", "id": nid(), "spec": rng.choice(pool)}
                if rng.random() < 0.4:
                    # copies: the shared base parsers, or any parser finished by then
                    o["copy"] = [rng.choice([-1, -2, rng.randrange(8)])
                                 for _ in range(rng.choice([1, 1, 2]))]
                r = rng.random()
                if r < 0.45:
                    o["how"] = rng.choice(["lazy", "steps", "unparsed"])
                if rng.random() < 0.25:
                    o["cache"] = rng.randrange(2)
                if rng.random() < 0.25:
                    o["spell"] = "name"
                ops.append(o)
            elif r < 0.95:
                ops.append({"op": "query", "id": nid(), "i": rng.randrange(8),
                            "q": rng.choice(QUERIES)})
            else:
                ops.append({"op": "addloc", "id": nid()})
        tasks.append({"name": "thr%d" % i, "ops": ops})
    if rng.random() < 0.4:
        tasks.append({"name": "user", "ops": [
            {"op": "query", "id": nid(), "i": rng.randrange(8), "q": rng.choice(QUERIES)}
            if rng.random() < 0.8 else {"op": "addloc", "id": nid()}
            for _ in range(rng.choice([2, 4]))]})
    r = rng.random()
    if r < 0.3:
        sched = {"kind": "rand", "p": rng.choice([0.003, 0.02, 0.1])}
    elif r < 0.75:
        sched = {"kind": "rand", "p": 0.003, "focus": rng.choice(FOCUS)}
    else:
        sched = {"kind": "pct", "d": rng.choice([1, 2, 4]), "k": rng.choice([300, 2000, 8000]),
                 "log": rng.random() < 0.5}
    return {"tasks": tasks, "cfg": {"sched": sched}}


def run(env, plan, sim):
    from pyclibrary import utils

    utils.add_header_locations([os.path.join(HDIR, "a"), os.path.join(HDIR, "b")])
    done = [(base_spec(v), make_base(v)) for v in (1, 2)]
    os.makedirs("cache")
    for i in range(4):
        os.makedirs("loc%d" % i)
        with open("loc%d/other%d.h" % (i, i), "w") as f:
            f.write("int other;\n")
    CODES.install(sim)
    busy = [0]
    overlap = [0]

    def full(op, copies):
        s = dict(op["spec"])
        s["copy"] = copies
        s["how"] = "unparsed" if op.get("how") == "unparsed" else None
        return s

    def body(ops):
        def go(t):
            for op in ops:
                sim.begin(t, op["id"])
                k = op["op"]
                if k == "build":
                    src = [done[i] if i >= 0 else done[-1 - i]
                           for i in [c if c < 0 else c % len(done) for c in op.get("copy", ())]]
                    # nested copies: keep the reference questions small
                    src = [s for s in src if not s[0].get("copy")]
                    spec = dict(op["spec"], spell=op.get("spell"))
                    cache = None
                    if op.get("cache") is not None:
                        cache = os.path.join(env.dir, "cache", "c%d" % op["cache"])
                    if busy[0]:
                        overlap[0] += 1
                    busy[0] += 1
                    try:
                        p = construct(spec, [s[1] for s in src], op.get("how"), cache)
                    except (SimAbort, Violation):
                        raise
                    except Exception as e:
                        raise Violation("construction-failed", "building %r failed: %r" % (
                            spec, e))
                    busy[0] -= 1
                    with sim.quiet():
                        fs = full(op, [s[0] for s in src])
                        got = C.canon_parser(p)
                        want = env.oracle.ask({"kind": "parse", "spec": fs})
                        if got != want:
                            raise Violation("wrong-definitions", "a parser built while others are "
                                            "built differs:\n  " + "\n  ".join(C.diff(got, want)))
                        done.append((fs, p))
                    sim.count("built")
                    if cache:
                        sim.count("built_with_cache")
                elif k == "query":
                    spec, p = done[op["i"] % len(done)]
                    got = query(p, op["q"])
                    with sim.quiet():
                        # find_text shows the loaded text, which a cache hit leaves unprocessed
                        if op["q"][0] != "text":
                            want = env.oracle.ask({"kind": "query", "spec": spec, "q": op["q"]}) \
                                if not spec.get("base") else query(p, op["q"])
                            if got != want:
                                raise Violation("wrong-query", "%r gave %.600r instead of %.600r"
                                                % (op["q"], got, want))
                    sim.count("queries")
                else:
                    d = os.path.join(env.dir, "loc%d" % (t.id % 4))
                    utils.add_header_locations([d])
                sim.log("op", t.id, op["id"])

        return go

    for tk in plan["tasks"]:
        sim.spawn(tk["name"], body(tk["ops"]))
    sim.run()
    if sim.violation is None and sim.error is None:
        for spec, p in done:
            want = env.oracle.ask({"kind": "parse", "spec": spec})
            got = C.canon_parser(p)
            if got != want:
                raise Violation("definitions-changed", "a finished parser changed:\n  "
                                + "\n  ".join(C.diff(got, want)))
    return {"nontrivial": overlap[0] > 0 and sim.switches > 0}

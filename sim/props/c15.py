"""C15: what a parser says depends on headers and arguments only."""

import gc
import locale
import logging
import os
import pickle
import subprocess
import sys

from .. import core, runner
from .. import parsework as W
from ..core import SimAbort, Violation

ID = "C15"
RULE = ("seeded histories of 2-6 operations in one process: building parsers over randomly "
        "generated headers, directly, in steps or as copies, with headers named in three ways, "
        "after and between failing builds (missing, undecodable, unreadable and malformed "
        "headers) and interrupted ones, while working directory, environment variables, locale, "
        "logging, file times and clock change and garbage collections happen at seeded lines; "
        "every result is compared, including the order of all definitions, with that of a "
        "pristine process, and in most runs one is also compared with that of a new interpreter "
        "with another hash seed, locale, working directory and optimisation level; non-trivial: a "
        "build followed another operation and its result was compared")
REAL = ["pyclibrary.c_parser (all)", "pyclibrary.utils (header search)", "pyclibrary.init",
        "pyparsing", "file system", "a second Python interpreter"]
STUB = ["clock", "garbage collector (triggered by the simulator)",
        "signal delivery (the interrupt is raised by the simulator)"]
RUNS = {"quick": 700, "thorough": 40000}
POOL = {"quick": 40, "thorough": 4000}
_Popen = subprocess.Popen
CODES = None
PARFN = ["CParser.process_all", "CParser.preprocess", "CParser.process_macro_defn",
         "CParser.expand_macros", "CParser.eval_preprocessor_expr", "CParser.eval_expr",
         "CParser.parse_defs", "CParser.build_parser", "CParser.process_struct",
         "CParser.process_enum", "CParser.process_declarator", "CParser.process_typedef",
         "CParser.process_function", "CParser.process_variable", "CParser.add_def", "recombine",
         "CParser.remove_comments", "CParser.load_file"]
BROKEN = ["#define F(a, b) ((a) + (b))\nint ok; int x[F(1];\nint y;\n",
          "#define REC REC2\n#define REC2 REC\nint x[REC];\n#if REC\nint y;\n#endif\n",
          "#if defined(\n#else\nint a\n", "#pragma pack(push, 2)\n#pragma pack(pop)\n#pragma pack(pop)\n"
          "struct late { char c; int i; };\n", "#endif\n#else\n#elif 1\nint z;\n",
          "#pragma pack(push, 1)\nstruct open_ { char c; int i; };\nenum { LEAK_A, LEAK_B };\n",
          "#define LEVEL 99\n#define FEATURE\nstruct { int a; } anon_v;\nunion { int b; } anon_w;\n",
          "typedef struct g1 { int clash; } g1;\ntypedef long TOKEN_A;\n#define API_CALL int\n",
          "int x = 1 / 0;\n#define Z (1/0)\nint arr[Z];\n"]


def prepare(scratch):
    global CODES
    from pyclibrary import init

    init()
    CODES = core.LinePoints(core.package_code(os.path.join(runner.REPO, "pyclibrary") + os.sep))


def oracle(req, wd):
    W.write(req["spec"], wd)
    return W.build(req["spec"], wd)


def plan(rng, tier):
    n = [0]

    def nid():
        n[0] += 1
        return "o%d" % n[0]

    pool = [rng.randrange(POOL[tier]) for _ in range(3)]

    def spec(depth=0):
        s = {"hs": rng.sample(pool, rng.choice([1, 1, 1, 2])) if len(set(pool)) == 3 else pool[:1],
             "kw": rng.randrange(len(W.KWARGS)), "rep": rng.randrange(len(W.REPLACES))}
        if rng.random() < 0.5:
            s["kw"] = s["rep"] = 0
        if not depth and rng.random() < 0.15:
            s["copy"] = [spec(1) for _ in range(rng.choice([1, 1, 2]))]
        return s

    ops = []
    lines = False
    specs = [spec(), spec()]
    for _ in range(rng.choice([2, 3, 4, 6])):
        r = rng.random()
        if r < 0.5:
            ops.append({"op": "build", "id": nid(), "spec": rng.choice(specs),
                        "spell": rng.choice(["abs", "abs", "rel", "name"]),
                        "how": rng.choice(["direct", "direct", "lazy", "steps"])})
        elif r < 0.62:
            ops.append({"op": "fail", "id": nid(), "spec": rng.choice(specs),
                        "what": rng.choice(["missing", "bytes", "dir"]),
                        "first": rng.random() < 0.5})
        elif r < 0.74:
            ops.append({"op": "broken", "id": nid(), "i": rng.randrange(len(BROKEN)),
                        "spec": rng.choice(specs), "first": rng.random() < 0.5})
        elif r < 0.84:
            lines = True
            ops.append({"op": "int", "id": nid(), "spec": rng.choice(specs),
                        "at": rng.choice([["new", rng.randrange(450)],
                                          [rng.choice(PARFN), int(60 ** rng.random()) - 1]])})
        else:
            ops.append({"op": "env", "id": nid(), "what": rng.choice(
                ["cwd", "cwd", "env", "locale", "log", "times", "clock", "junk", "gc"]),
                "x": rng.random()})
    ops.append({"op": "build", "id": nid(), "spec": rng.choice(specs), "spell": "abs",
                "how": "direct", "fresh": rng.random() < 0.6,
                "hash": rng.choice(["1", "2", "3", "99", "31337"]),
                "lang": rng.choice(["C", "POSIX", "C.UTF-8", "en_US.ISO-8859-1"]),
                "utf8": rng.choice(["0", "0", "1"]), "opt": rng.choice([0, 0, 1, 2]),
                "debug": rng.random() < 0.3})
    gcs = lines and rng.random() < 0.5
    return {"tasks": [{"name": "main", "ops": ops}], "lines": lines,
            "cfg": {"sched": {"kind": "none"}, "gc_rate": 0.002 if gcs else 0}}


def fresh(env, sim, op, d):
    spec = op["spec"]
    cwd = os.path.join(env.dir, "elsewhere")
    os.makedirs(cwd, exist_ok=True)
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG"))}
    e.update(PYTHONHASHSEED=op["hash"], LANG=op["lang"], LC_ALL=op["lang"],
             PYTHONUTF8=op["utf8"], PYTHONCOERCECLOCALE="0", TZ="Asia/Tokyo", HOME="/nonexistent")
    a = [sys.executable, "-B"] + ["-" + "O" * op["opt"]] * bool(op["opt"])
    p = _Popen(a + [os.path.join(runner.HERE, "sim", "freshparse.py")], stdin=subprocess.PIPE,
               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd)
    out, err = p.communicate(pickle.dumps({"repo": runner.REPO, "dir": d, "cwd": cwd,
                                           "spec": spec, "debug": op["debug"]}))
    if p.returncode or not out:
        raise Violation("no-answer", "parsing in a new interpreter failed:\n"
                        + err.decode(errors="replace")[-1500:])
    sim.count("new_interpreters")
    return pickle.loads(out)


def first_difference(a, b, path=""):
    if type(a) is not type(b) or not isinstance(a, tuple):
        return "%s: %.300r instead of %.300r" % (path, a, b)
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            n = x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i
            return first_difference(x, y, "%s/%s" % (path, n))
    return "%s: %d entries instead of %d: %.500r and %.500r" % (path, len(a), len(b), a, b)


def run(env, plan, sim):
    from pyclibrary import CParser, utils

    d = os.path.join(env.dir, "hdr")
    for n in ("hdr", "hdr/sub", "w0", "w1", "loc"):
        os.makedirs(n)
    # other headers of the same names, where nobody looks first
    for n in ("w0", "w1", "loc"):
        with open(os.path.join(n, "other.h"), "w") as f:
            f.write("int decoy;\n")
    utils.add_header_locations([os.path.join(env.dir, "loc"), d])
    if plan["lines"]:
        CODES.install(sim)
    for i, text in enumerate(BROKEN):
        with open(os.path.join(d, "broken%d.h" % i), "w") as f:
            f.write(text)
    with open(os.path.join(d, "bytes.h"), "wb") as f:
        f.write(b"int half;\n#define LEVEL 7\n\xff\xfe\xfa int other;\n")
    before = [0]
    useful = [0]
    kept = []
    bad = {"missing": "nosuch.h", "bytes": "bytes.h", "dir": "sub"}

    def want(spec):
        return env.oracle.ask({"spec": spec})

    def compare(op, got, ref, where):
        if got != ref:
            raise Violation("not-reproducible", "%s, a parser %s: %s" % (
                where, op["spec"], first_difference(got, ref)))

    def build(t, op):
        spec = op["spec"]
        with sim.quiet():
            W.write(spec, d)
        try:
            p = W.construct(spec, d, op["spell"], op["how"])
        except (SimAbort, Violation):
            raise
        except Exception as e:
            got = ("exc", type(e).__name__)
        else:
            got = ("ok", W.view(p))
            kept.append((p, got[1], op))
        with sim.quiet():
            ref = want(spec)
            compare(op, got, ref, "after %d other operations" % before[0])
            if op.get("fresh"):
                compare(op, fresh(env, sim, op, d), ref, "in another interpreter")
        sim.count("built")
        sim.log("built", op["id"], got[0])
        if before[0]:
            useful[0] = 1

    def attempt(op, fs, kw):
        order = fs[::-1] if op["first"] else fs
        try:
            CParser(order, **kw)
        except (SimAbort, Violation):
            raise
        except Exception as e:
            sim.count("failed_builds")
            sim.log("failed", op["id"], type(e).__name__)
        else:
            sim.count("odd_builds")

    def go(t):
        for op in plan["tasks"][0]["ops"]:
            sim.begin(t, op["id"])
            k = op["op"]
            if k == "build":
                build(t, op)
            elif k == "env":
                change(op["what"], op["x"])
                sim.count("env_" + op["what"])
            else:
                W.write(op["spec"], d)
                fs = [os.path.join(d, n) for n in W.names(op["spec"])]
                kw = W.kwargs(op["spec"])
                if k == "fail":
                    attempt(op, fs + [os.path.join(d, bad[op["what"]])], kw)
                elif k == "broken":
                    attempt(op, fs + [os.path.join(d, "broken%d.h" % op["i"])], kw)
                else:
                    t.interrupt_at = tuple(op["at"])
                    try:
                        CParser(fs, **kw)
                    except KeyboardInterrupt:
                        sim.count("interrupted")
                    t.interrupt_at = None
            before[0] += 1

    def change(what, x):
        if what == "cwd":
            os.chdir(os.path.join(env.dir, ["w0", "w1", "."][int(x * 3)]))
        elif what == "env":
            os.environ.update(LANG="tr_TR.UTF-8", HOME="/nonexistent", TZ="UTC+5",
                              C_INCLUDE_PATH=env.dir + "/w0", CPATH=env.dir + "/w1")
        elif what == "locale":
            try:
                locale.setlocale(locale.LC_ALL, ["C", "C.UTF-8", "POSIX"][int(x * 3)])
            except locale.Error:
                pass
        elif what == "log":
            logging.getLogger().setLevel([logging.DEBUG, logging.CRITICAL][int(x * 2)])
        elif what == "times":
            for i, f in enumerate(sorted(os.listdir(d))):
                ns = core.BASE_NS + int(((x * (i + 3)) % 1) * 1e18)
                os.utime(os.path.join(d, f), ns=(ns, ns))
        elif what == "clock":
            sim.now_ns += int((x - 0.3) * 1e17)
        elif what == "junk":
            kept.append((None, [object() for _ in range(int(x * 9999))], None))
        else:
            gc.collect()

    sim.spawn("main", go)
    sim.run()
    if sim.violation is None and sim.error is None:
        for p, v, op in kept:
            if p is not None and W.view(p) != v:
                raise Violation("definitions-changed", "a finished parser %s changed: %s" % (
                    op["spec"], first_difference(W.view(p), v)))
    return {"nontrivial": bool(useful[0])}

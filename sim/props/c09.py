"""C09: initialisation happens exactly once."""

import ctypes
import os
import subprocess

from .. import canon as C
from .. import core, libworld, procsim, runner
from ..core import SimAbort, Violation

ID = "C09"
RULE = ("seeded schedules (source-line granularity) of 1-4 threads constructing their first "
        "parsers and libraries and calling init / auto_init with different extra types and "
        "modifiers in a process where the package was imported but never initialised; "
        "initialisations fail in the middle or are interrupted (KeyboardInterrupt) at a source "
        "line; non-trivial: at least two operations that need or request initialisation, and a "
        "switch or an aborted initialisation")
REAL = ["pyclibrary.init (all)", "pyclibrary.c_parser (all)", "pyclibrary.c_library",
        "pyclibrary.backends (all)", "pyparsing", "ctypes and the dynamic linker"]
STUB = ["locks (scheduled)", "C library (compiled test library)", "external programs (file)"]
RUNS = {"quick": 1600, "thorough": 60000}

CODES = None
SO = None
HDR = None
TEXT = """
MODA int fa(int x);
MODC(k) mytype_c MODB fb(mytype_b x);
struct sa { mytype_a m; int k; };
struct sb { mytype_b m; time_t t; };
struct sc { mytype_c m; };
__int64 wide(int a);
"""
STRUCTS = ["sa", "sb", "sc"]
TYPES = {"mytype_a": "c_short", "mytype_b": "c_double", "mytype_c": "c_longlong"}
FOCUS = [["init", "auto_init", "ensure_init"], ["CParser.__init__", "init", "ensure_init"],
         ["_init_cparser", "init"], ["init_clibrary", "init_libraries", "init"],
         ["CParser.__init__"]]


def prepare(scratch):
    global CODES, SO, HDR
    SO = os.path.join(scratch, "libsima.so")
    src = os.path.join(runner.HERE, "sim", "clib", "simlib.c")
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", SO, src],
                       capture_output=True, text=True)
    if r.returncode:
        raise core.HarnessError("gcc failed: " + r.stderr)
    HDR = os.path.join(scratch, "init.h")
    with open(HDR, "w") as f:
        f.write(TEXT)
    CODES = core.LinePoints(core.package_code(os.path.join(runner.REPO, "pyclibrary") + os.sep))


# --- what initialisations are asked for -------------------------------------------


class Boom(Exception):
    pass


class BadKeys(dict):
    def keys(self):
        raise Boom("keys")

    __iter__ = items = keys


class BadLate(dict):
    """Its names can be listed, its values cannot be read."""

    def _boom(self, *a):
        raise Boom("late")

    __setitem__ = update = __getitem__ = items = values = get = copy = __or__ = __ror__ = _boom


def args(cfg):
    t = {k: getattr(ctypes, TYPES[k]) for k in cfg.get("types", ())}
    m = list(cfg.get("mods", ()))
    bad = cfg.get("bad")
    if bad == "keys":
        t = BadKeys(t or {"mytype_a": ctypes.c_char})
    elif bad == "late":
        t = BadLate(t or {"mytype_a": ctypes.c_char})
    elif bad == "mod":
        m = m + [5]
    elif bad == "modtype":
        m = 7
    elif bad == "typtype":
        t = 7
    kw = {}
    if t or cfg.get("empty"):
        kw["extra_types"] = t
    if m or cfg.get("empty"):
        kw["extra_modifiers"] = m
    if cfg.get("os"):
        kw["os"] = cfg["os"]
    return kw


def rand_cfg(rng, bad):
    c = {"types": sorted(rng.sample(sorted(TYPES), rng.choice([0, 1, 1, 2]))),
         "mods": rng.sample(["MODA", "MODB", "MODC"], rng.choice([0, 1, 1, 2])),
         "fn": rng.choice(["init", "init", "auto_init"])}
    if rng.random() < 0.1:
        c["empty"] = True
    if c["fn"] == "auto_init" and rng.random() < 0.3:
        c["os"] = rng.choice(["win32", "linux2", "darwin"])
    if bad:
        c["bad"] = rng.choice(["keys", "late", "late", "mod", "modtype", "typtype"])
    return c


def plan(rng, tier):
    n = [0]

    def nid():
        n[0] += 1
        return "o%d" % n[0]

    k = rng.choice([1, 2, 2, 3, 4])
    faults = rng.random() < 0.55
    tasks = []
    for i in range(k):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3]) if k > 1 else rng.choice([2, 3, 5])):
            r = rng.random()
            o = {"id": nid()}
            if r < 0.5:
                o.update(op="init", cfg=rand_cfg(rng, faults and rng.random() < 0.35))
            elif r < 0.8:
                o.update(op="parser", lazy=rng.random() < 0.3)
            else:
                o.update(op="lib")
            if faults and rng.random() < 0.25:
                o["int"] = rng.choice([
                    int(400 ** rng.random()), ["init", rng.randrange(12)],
                    ["_init_cparser", rng.randrange(30)], ["init_clibrary", rng.randrange(50)],
                    ["ensure_init", rng.randrange(4)]])
            ops.append(o)
        tasks.append({"name": "thr%d" % i, "ops": ops})
    r = rng.random()
    if k == 1:
        sched = {"kind": "none"}
    elif r < 0.35:
        sched = {"kind": "rand", "p": rng.choice([0.01, 0.05, 0.2])}
    elif r < 0.75:
        sched = {"kind": "rand", "p": 0.005, "focus": rng.choice(FOCUS)}
    else:
        sched = {"kind": "pct", "d": rng.choice([1, 2, 4]), "k": rng.choice([60, 300, 1500]),
                 "log": True}
    return {"tasks": tasks,
            "cfg": {"sched": sched, "instr": rng.choice([[], [], [], ["/init.py"]])}}


# --- observing --------------------------------------------------------------------


def see_parser(p):
    return C.canon_parser(p)


def see_lib(lib):
    out = []
    for s in STRUCTS:
        try:
            out.append((s, "ok", C.describe(lib("structs", s))))
        except (SimAbort, Violation):
            raise
        except Exception as e:
            out.append((s, "exc", type(e).__name__))
    return tuple(out)


def oracle(req, wd):
    import pyclibrary
    from pyclibrary import CLibrary, CParser

    procsim.install(libworld.elf_file_tool)
    cfg = req["cfg"]
    if cfg is not None:
        getattr(pyclibrary, cfg["fn"])(**args(cfg))
    if req["kind"] == "parser":
        return see_parser(CParser([HDR]))
    return see_lib(CLibrary(SO, [HDR]))


def run(env, plan, sim):
    import pyclibrary
    from pyclibrary import CLibrary, CParser

    procsim.install(libworld.elf_file_tool)
    CODES.install(sim, instr=plan["cfg"].get("instr", ()))
    ok, maybe, seen = [], [], []
    libs, nops = [], [0]
    parsers = []

    def body(ops):
        def go(t):
            for op in ops:
                sim.begin(t, op["id"])
                if "int" in op:
                    ia = op["int"]
                    t.interrupt_at = ia if isinstance(ia, int) else tuple(ia)
                try:
                    one(t, op)
                except KeyboardInterrupt:
                    if not any(f["kind"] == "interrupt" for f in t.op_faults):
                        raise
                    sim.count("interrupted")
                    if op["op"] == "init":
                        maybe.append(op["cfg"])
                t.interrupt_at = None
                nops[0] += 1
                if any(f["kind"] == "interrupt" for f in t.op_faults):
                    swallowed[0] += 1

        return go

    swallowed = [0]

    def one(t, op):
        k = op["op"]
        if k == "init":
            cfg = op["cfg"]
            try:
                getattr(pyclibrary, cfg["fn"])(**args(cfg))
            except (SimAbort, Violation):
                raise
            except RuntimeError as e:
                sim.log("init", op["id"], "refused")
                sim.count("refused")
                # refused although nobody else can have initialised the package
                if first(t, op):
                    raise Violation("init-refused", "the first initialisation was refused: %r" % e)
                return
            except Exception as e:
                sim.log("init", op["id"], type(e).__name__)
                if not cfg.get("bad"):
                    raise Violation("wrong-error", "%s raised %r instead of RuntimeError" % (
                        cfg["fn"], e))
                sim.count("init_failed")
                return
            sim.log("init", op["id"], "ok")
            sim.count("init_ok")
            ok.append(cfg)
            if len(ok) > 1:
                raise Violation("initialised-twice", "two explicit initialisations succeeded: %r"
                                % (ok,))
            return
        try:
            if k == "parser":
                if op["lazy"]:
                    p = CParser([HDR], process_all=False)
                    p.process_all()
                else:
                    p = CParser([HDR])
                t.interrupt_at = None
                with sim.quiet():
                    parsers.append(p)
                    got = ("parser", see_parser(p))
            else:
                l = CLibrary(SO, [HDR])
                libs.append(l)
                got = ("lib", see_lib(l))
        except (SimAbort, Violation, KeyboardInterrupt):
            raise
        except Exception as e:
            raise Violation("construction-failed", "constructing a %s failed: %r" % (k, e))
        seen.append((op["id"],) + got)
        sim.log("built", op["id"])
        sim.count("built_" + k)

    def first(t, op):
        """No other operation that could have initialised the package has begun."""
        return len(plan["tasks"]) == 1 and nops[0] == 0

    for tk in plan["tasks"]:
        sim.spawn(tk["name"], body(tk["ops"]))
    sim.run()
    if sim.violation is None and sim.error is None:

        def last(t):
            with sim.quiet():
                # nothing happened so far: a full initialisation still succeeds
                final = {"types": ["mytype_b", "mytype_c"], "mods": ["MODB"], "fn": "init"}
                try:
                    pyclibrary.init(**args(final))
                except RuntimeError:
                    if not ok and not maybe and not seen and not started[0]:
                        raise Violation("init-refused", "a full initialisation is refused although "
                                        "all earlier ones were aborted")
                else:
                    if ok or seen:
                        raise Violation("initialised-twice", "init succeeded although the package "
                                        "was initialised before")
                    ok.append(final)
                p = CParser([HDR])
                seen.append(("end", "parser", see_parser(p)))
                seen.append(("end", "lib", see_lib(CLibrary(SO, p))))

        started = [any(o["op"] != "init" for tk in plan["tasks"] for o in tk["ops"])]
        sim.spawn("last", last)
        sim.run_more()
    if sim.violation is None and sim.error is None:
        # (one with bad arguments never takes effect)
        cands = ok if ok else [None] + [c for c in maybe if not c.get("bad")]
        why = []
        for c in cands:
            for oid, kind, got in seen:
                want = env.oracle.ask({"kind": kind, "cfg": c})
                if got != want:
                    why.append("%s of %s, taking %r as the initialisation in force:\n    %s" % (
                        kind, oid, c, "\n    ".join(C.diff(got, want))))
                    break
            else:
                break
        else:
            raise Violation("wrong-initialisation", "no single initialisation explains what was "
                            "built (%d succeeded)\n  %s" % (len(ok), "\n  ".join(why)))
        # parsers keep what they had
        for p, (oid, kind, got) in zip(parsers, [s for s in seen if s[1] == "parser"]):
            if see_parser(p) != got:
                raise Violation("definitions-changed", "parser of %s" % oid)
    return {"nontrivial": nops[0] > 1 and (sim.switches > 0 or swallowed[0] > 0
                                           or sim.stats.get("init_failed", 0) > 0)}

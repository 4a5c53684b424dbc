"""World shared by the library properties (C04-C08, C13).

Tasks are threads of one process using library objects.  The package and ctypes
are real; the shared library is a small C file compiled at start, whose functions
call a hook where the simulator may switch tasks.
"""

import ctypes
import os
import shutil
import subprocess
import traceback

from . import canon as C
from . import core, fsim, procsim, runner
from .core import SimAbort, Violation

HOOK = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long)
PARSERS = []
LIBDIR = None
CODES = None
HDR = os.path.join(runner.HERE, "sim", "clib", "simlib.h")


def prepare(scratch, parsers=2, fast=True):
    """Compile the libraries and parse their header, before any run."""
    global LIBDIR, CODES
    LIBDIR = os.path.join(scratch, "lib")
    os.makedirs(LIBDIR)
    src = os.path.join(runner.HERE, "sim", "clib", "simlib.c")
    for name, flags in (("a", []), ("b", ["-DVARIANT_B"])):
        out = os.path.join(LIBDIR, "libsim%s.so" % name)
        r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-Wl,-soname,libsim%s.so" % name,
                            "-o", out, src] + flags, capture_output=True, text=True)
        if r.returncode:
            raise core.HarnessError("gcc failed: " + r.stderr)
    shutil.copy(os.path.join(LIBDIR, "libsima.so"), os.path.join(LIBDIR, "libsimc.so"))
    from pyclibrary import CParser

    for _ in range(parsers):
        PARSERS.append(CParser([HDR]))
    if fast:
        core.fast_grammar_locks()
    CODES = core.LinePoints(core.package_code(os.path.join(runner.REPO, "pyclibrary") + os.sep))


def elf_file_tool(tool, argv, shell, raw):
    """Stand-in for the programs the package runs: file(1) looks at the ELF header."""
    if tool == "file":
        brief = any(a in ("-b", "--brief", "-bL", "-Lb") for a in argv)
        path = argv[-1]
        try:
            with fsim.R_open(path, "rb") as f:
                b = f.read(6)
        except OSError:
            d = b"cannot open (No such file or directory)"
        else:
            if b[:4] == b"\x7fELF":
                d = b"ELF %d-bit LSB shared object" % (64 if b[4:5] == b"\x02" else 32)
            else:
                d = b"data"
        return 0, (b"" if brief else os.fsencode(path) + b": ") + d + b"\n", b""
    return 127, b"", b""


def rand_instr(rng):
    """Some runs may switch between any two bytecodes of these modules."""
    return rng.choice([[], [], [], [], ["/c_library.py"], ["/c_library.py"],
                       ["backends/ctypes.py"]])


class LibWorld:
    def __init__(self, env, plan, sim, lines=True):
        self.env, self.plan, self.sim = env, plan, sim
        self.libs = {}
        self.hooks = []
        self.inside = {}      # lib key -> list of (task, fn)
        self.on_event = None
        self.raw = {}
        procsim.install(elf_file_tool)
        if lines:
            CODES.install(sim, instr=plan["cfg"].get("instr", ()),
                          cret=plan["cfg"].get("cret", False))

    def so(self, key):
        return os.path.join(LIBDIR, "libsim%s.so" % key)

    def hook(self, key, path=None):
        """Install the simulator's hook in a library file."""
        sim = self.sim
        inside = self.inside.setdefault(key, [])
        raw = ctypes.CDLL(path or self.so(key))
        world = self

        def cb(ev, fn, arg):
            t = sim.task()
            if t is None or t.quiet or sim.aborting:
                return 0
            try:
                if ev == 0:
                    inside.append((t, fn))
                elif ev == 1:
                    for i in range(len(inside) - 1, -1, -1):
                        if inside[i][0] is t:
                            del inside[i]
                            break
                if world.on_event is not None:
                    world.on_event(t, key, ev, fn, arg)
                sim.log("c", t.id, key, ev, fn, arg if fn != 11 else 0)
                loc = t.loc
                t.loc = ("C:%d" % fn, ev)
                stall = world.plan["cfg"].get("stall")
                if not stall:
                    sim.point(t, "c")
                else:
                    f = sim.io(t, "c", None, [("stall", stall)])
                    if f is not None:
                        # the function takes its time
                        sim.block(t, "stall%d" % t.id,
                                  sim.now_ns + int((0.01, 2, 100, 10000)[int(f["x"] * 4)] * 1e9))
                t.loc = loc
            except SimAbort:
                pass
            except Violation as e:
                sim.fail(e.cls, e.detail)
            except Exception:
                # ctypes would swallow it
                if sim.error is None:
                    sim.error = traceback.format_exc()
                sim.aborting = True
            return 0

        h = HOOK(cb)
        self.hooks.append((h, raw))
        raw.simlib_set_hook(h)
        self.raw[key] = raw

    def open(self, spec, parser=None):
        from pyclibrary import CLibrary

        kw = {}
        if spec.get("prefix") is not None:
            kw["prefix"] = list(spec["prefix"]) if len(spec["prefix"]) != 1 else spec["prefix"][0]
        if spec.get("lock"):
            kw["lock_calls"] = True
        return CLibrary(self.so(spec["so"]), PARSERS[spec.get("parser", 0)] if parser is None
                        else parser, **kw)


# --- lookups ----------------------------------------------------------------------

STRUCTS = ["sl_point", "sl_a", "sl_b", "sl_leaf", "sl_node", "sl_grid", "sl_cbs", "sl_packed",
           "sl_aligned", "sl_paint", "sl_anon", "slx_thing", "sl_self", "sl_ring1", "sl_ring2",
           "sl_ring3", "sl_dual", "sl_tri", "sl_nowhere", "sl_twin", "twin"]
BAD_STRUCTS = ["sl_bad", "sl_uses_bad", "sl_late"]
UNIONS = ["sl_u", "anon_union0", "anon_union1"]
BAD_UNIONS = ["sl_badu"]
TYPES = ["sl_point_ptr", "sl_list", "sl_cb", "sl_pcb", "sl_mat", "sl_mat_p", "sl_pair", "sl_byte",
         "sl_bytes", "sl_reg", "sl_color_t", "sl_anon_t", "sl_alias1", "sl_alias2", "sl_alias3",
         "sl_u_t", "slx_thing_t", "sl_fwd_only", "sl_fwd_enum", "sl_node",
         "sl_point", "other", "sl_other", "slx_level", "struct sl_ring3", "struct sl_b", "union sl_u", "enum sl_colors"]
BAD_TYPES = ["sl_bad_t", "struct sl_uses_bad", "union sl_badu"]
ENUMS = ["sl_colors", "sl_nowhere_e", "sl_level"]
VALUES = ["SL_VERSION", "SL_LABEL", "SL_RATIO", "SL_FLAGS", "SL_EMPTY", "SL_RED", "SL_BLUE",
          "sl_tri", "sl_matrix", "gain", "sl_pick", "slx_pick"]
FUNCS = ["sl_add", "sl_acc", "sl_work", "sl_call", "sl_bump", "sl_multi", "sl_void", "sl_pp",
         "sl_mkpoint", "sl_sum", "sl_len", "sl_nulls", "sl_scale", "sl_color", "sl_name",
         "slx_short", "sl_mix", "sl_pvec", "sl_only_a", "sl_only_b", "sl_dual", "sl_state",
         "sl_nop", "sl_gain", "slx_gain", "pick"]
TWINS = ["twin", "gain", "pick", "other", "level", "sl_twin", "sl_gain", "sl_pick", "sl_other",
         "sl_level", "slx_gain", "slx_pick", "slx_level"]
BAD_FUNCS = ["sl_missing", "sl_badarg", "sl_badret"]
NAMES = {"structs": STRUCTS + BAD_STRUCTS, "unions": UNIONS + BAD_UNIONS,
         "types": TYPES + BAD_TYPES, "enums": ENUMS, "values": VALUES,
         "functions": FUNCS + BAD_FUNCS}
ARRAY_TYPES = ["int", "double", "sl_point", "sl_node", "struct sl_grid", "sl_pair", "sl_byte",
               "sl_mat", "struct sl_uses_bad", "unknown_t", "sl_list", "union sl_u"]
CAST_TYPES = ["sl_list", "sl_point_ptr", "sl_bytes", "sl_alias3", "sl_bad_t", "sl_mat_p"]


def rand_lookup(rng, prefixes=("sl_",), bad=0.2, simple=False):
    """A random lookup; with weight on related names so that they interfere."""
    r = rng.random()
    if r < 0.12 and not simple:
        return {"how": "array", "typ": rng.choice(ARRAY_TYPES),
                "size": rng.choice([2, [2, 3], [1], [2, 1, 2]]), "vals": rng.random() < 0.2}
    if r < 0.17 and not simple:
        return {"how": "cast", "typ": rng.choice(CAST_TYPES)}
    if r < 0.2 and not simple:
        return {"how": "item", "kind": rng.choice(sorted(NAMES))}
    kind = rng.choice(["structs", "structs", "types", "types", "functions", "functions",
                       "unions", "enums", "values"])
    name = rng.choice(NAMES[kind])
    if rng.random() < 0.12:
        name = rng.choice(TWINS)
    if rng.random() < 0.35:
        for p in prefixes:
            if name.startswith(p):
                name = name[len(p):]
                break
    if rng.random() < bad * 0.3:
        name = rng.choice(["nosuch", "sl_nosuch", "__len__", "_nope_", ""])
    if rng.random() < 0.4:
        return {"how": "attr", "name": name}
    r = rng.random()
    if r < 0.2:
        # typedef names as structs, struct names as types and the like
        kind = rng.choice(sorted(NAMES))
    elif r < 0.23:
        kind = "nokind"
    return {"how": "kind", "kind": kind, "name": name}


def do_lookup(lib, op):
    """Perform a lookup -> the object itself (or raises)."""
    from pyclibrary.c_library import build_array, cast_to

    how = op["how"]
    if how == "attr":
        return getattr(lib, op["name"])
    if how == "kind":
        return lib(op["kind"], op["name"])
    if how == "item":
        return lib[op["kind"]]
    if how == "array":
        size = op["size"]
        size = tuple(size) if isinstance(size, list) else size
        vals = None
        if op.get("vals") and op["typ"] in ("int", "double") and not isinstance(size, tuple):
            vals = [1, 2][:size]
        a = build_array(lib, op["typ"], size, vals) if vals else build_array(lib, op["typ"], size)
        if vals and list(a) != vals:
            raise Violation("wrong-array", "values %r instead of %r" % (list(a), vals))
        return type(a)
    if how == "cast":
        x = ctypes.pointer(ctypes.c_int(5))
        return type(cast_to(lib, x, op["typ"]))
    raise ValueError(how)


def outcome(lib, op):
    """-> (description, object) ; description is comparable across processes."""
    try:
        v = do_lookup(lib, op)
    except (SimAbort, Violation, KeyboardInterrupt):
        raise
    except Exception as e:
        return ("exc", type(e).__name__), None
    return ("ok", C.describe(v)), v


def oracle(req, wd):
    """Reference: the lookup as the first one on a fresh library with a fresh parser."""
    from pyclibrary import CLibrary

    procsim.install(elf_file_tool)
    if req["kind"] == "look":
        spec = req["spec"]
        p = spec.get("prefix")
        kw = {} if p is None else {"prefix": list(p)}
        lib = CLibrary(os.path.join(LIBDIR, "libsim%s.so" % spec["so"]), PARSERS[0], **kw)
        return outcome(lib, req["op"])[0]
    if req["kind"] == "defs":
        return C.canon_parser(PARSERS[0])
    raise ValueError(req["kind"])


def ref(env, spec, op):
    keys = ("how", "name", "kind", "typ", "size", "vals")
    return env.oracle.ask({"kind": "look",
                           "spec": {"so": spec["so"], "prefix": spec.get("prefix")},
                           "op": {k: op[k] for k in keys if k in op}})


# --- calls ---------------------------------------------------------------------------


def point(lib, x, y):
    p = lib("structs", "sl_point")()
    p.x, p.y = x, y
    return p

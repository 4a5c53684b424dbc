"""World shared by the cache / header properties (C01, C02, C03, C11).

Tasks are processes sharing a directory of headers and a cache file.  The real
CParser runs; its file access goes through fsim.  Oracle: the same parser run
without any cache, in a pristine process, on the header versions that existed
while the operation ran.
"""

import itertools
import json
import os
import pickle
import random

from . import canon as C
from . import core, fsim
from .core import SimAbort, SimCrash, Violation

#: the last one has the name of the first one, in another directory
HEADERS = ["h0.h", "h1.h", "h2.h", "sub/h0.h"]
NH = len(HEADERS)

# --- header texts ------------------------------------------------------------


def snippets(h, v):
    n = "h%d" % h
    return {
        "pack": """
#pragma pack(push, %d)
struct %s_packed { char c; int i[%d]; const char * const name; };
#pragma pack(pop)
struct %s_plain { char c; double d; struct %s_packed inner; union { int a; float b; } u; };
""" % (1 + v % 3, n, 1 + v % 4, n, n),
        "enum": """
enum %s_colors { %s_RED = %d, %s_GREEN, %s_BLUE = %s_RED + 7 };
typedef enum %s_colors %s_color_t;
typedef int (*%s_callback)(const int *a, unsigned long b, struct %s_fwd *c);
""" % (n, n, v, n, n, n, n, n, n, n),
        "vars": """
static const int %s_table[3] = { %d, 2, 0x1F };
unsigned long long %s_big = %dULL;
char * %s_text = "va;lue %d";
double %s_pi = 3.%d;
""" % (n, v, n, 2**33 + v, n, v, n, v),
        "fnmacro": """
#define %s_ADD(a, b) ((a) + (b) * %d)
#define %s_SUM %s_ADD(1, 2)
#define %s_ALIAS %s_ADD
int %s_arr[%s_ADD(2, 1)];
""" % (n, v, n, n, n, n, n, n),
        "cond": """
#ifdef FEATURE_X
int %s_feature_on(int x%d);
#else
int %s_feature_off(int x%d);
#endif
#if LEVEL > 2
#define %s_HIGH LEVEL
#elif LEVEL == 2
#define %s_MID LEVEL
#else
#define %s_LOW %d
#endif
""" % (n, v, n, v, n, n, n, v),
        "tokens": """
TOKEN_A %s_tok_a(TOKEN_B x%d);
#define %s_TOK "TOKEN_B %d"
""" % (n, v, n, v),
        "nonascii": """
#define %s_GREET "h\u00e9llo w\u00f6rld %d"
/* comm\u00e9nt */
""" % (n, v),
        "ext": """
MYINT %s_my(MYINT a, const MYINT *b%d);
typedef MYINT %s_alias;
#define %s_EXTRA (EXTRA_VAL + %d)
""" % (n, v, n, n, v),
        "cross": """
#define SHARED_%d %d
#ifdef SHARED_0
#define %s_SAW_SHARED SHARED_0
#endif
#undef SHARED_%d
#undef SHARED_NEVER
#define %s_FROM_PREV (MARK_h0 + %d)
int %s_defined_twice(int a%d);
int defined_everywhere(int from_%s);
#define REDEFINED %d
""" % (h, v, n, (h + 1) % 3, n, v, n, v, n, h * 100 + v),
        "evil": """
#define %s_OS os
#define %s_RE re.compile
#define %s_NONE None
#define %s_NEG (-%d)
#define %s_EMPTY
""" % (n, n, n, n, v, n),
        "base": """
BASE_T %s_uses_base(BASE_T x%d);
#define %s_BASED (BASE_CONST + %d)
""" % (n, v, n, v),
        "pad": "/* %s */\n#define %s_PAD %d\n" % ("pad " * 2300, n, v),
        "bigpad": "/* %s */\n#define %s_PAD %d\n" % ("pad\n" * 18000, n, v),
        "quals": """
typedef const volatile int * const %s_cvp;
extern volatile const unsigned short %s_reg%d;
int %s_multi[2][%d];
const char * const * %s_argv(const char * const argv[], int n);
""" % (n, n, v, n, 1 + v % 5, n),
    }


SNIP = ["pack", "enum", "vars", "fnmacro", "cond", "tokens", "nonascii", "ext", "cross",
        "evil", "base", "quals"]

#: styles: which snippets a header has (few, to share reference results)
STYLES = [
    ["cond", "tokens"],
    ["pack"],
    ["fnmacro", "cross"],
    ["enum", "vars"],
    ["ext", "evil"],
    ["nonascii", "tokens"],
    ["base", "cross"],
    [],
    ["quals", "cross"],
    ["nonascii", "ext"],
    ["cond", "base"],
    ["tokens", "cross", "nonascii"],
    ["pad"],
    ["bigpad", "cond"],
    ["empty"],
    ["pack", "cond"],
    ["pack", "tokens", "cross"],
]


def header_text(h, v, style):
    s = snippets(h, v)
    if "empty" in STYLES[style]:
        # nothing at all, or nothing but blanks
        return "\n" * (v % 3)
    out = ["/* header %d version %d */" % (h, v),
           "#define MARK_h%d %d" % (h, 1000 * h + v),
           "int mark_h%d_v%d(int a, char *b);" % (h, v)]
    # an unterminated construct would swallow what follows a truncation, so the
    # last declaration is a marker too
    out += [s[x] for x in STYLES[style]]
    out.append("int tail_h%d_v%d(void);" % (h, v))
    return "\n".join(out) + "\n"


def header_bytes(h, v, style, enc="utf-8"):
    return header_text(h, v, style).encode(enc)


def expected_marks(h, v, style, text):
    if "empty" in STYLES[style]:
        return {"values": {}, "functions": []}
    vals = {"MARK_h%d" % h: 1000 * h + v}
    for st, name, val in (("nonascii", "GREET", None), ("pad", "PAD", v), ("bigpad", "PAD", v),
                          ("evil", "NEG", -v)):
        if st in STYLES[style]:
            if val is None:
                val = text.split('_%s "' % name)[1].split('"')[0]
            vals["h%d_%s" % (h, name)] = val
    return {"values": vals,
            "functions": ["mark_h%d_v%d" % (h, v), "tail_h%d_v%d" % (h, v)]}


def base_text(v):
    return ("typedef unsigned int BASE_T;\n#define BASE_CONST %d\n"
            "struct base_s { BASE_T a[%d]; };\n" % (v * 11, v))


def base_path(d, v):
    return os.path.join(d, "b%d" % v, "base.h" if v < 3 else "base%d.h" % v)


# --- constructor arguments -----------------------------------------------------

REPLACES = [
    None,
    [],
    [["TOKEN_A", "int"]],
    [["TOKEN_A", "char"]],
    [["TOKEN_A", "int"], ["TOKEN_B", "double"]],
    [["TOKEN_B", "TOKEN_A"], ["TOKEN_A", "int"]],
    [["TOKEN_A", "int"], ["TOKEN_B", "TOKEN_A"]],
    [["int", "long"], ["TOKEN_A", "int"]],
    [["TOKEN_A", "int"], ["int", "long"]],
]
KWARGS = [
    {},
    {"macros": {"FEATURE_X": ""}},
    {"macros": {"LEVEL": "2"}},
    {"macros": {"LEVEL": "3"}},
    {"macros": {"LEVEL": "3", "FEATURE_X": ""}},
    {"macros": {"FEATURE_X": "", "SHARED_0": "5"}},
    {"values": {"EXTRA_VAL": 4}},
    {"values": {"EXTRA_VAL": 5}},
    {"types": {"MYINT": ["int"]}},
    {"types": {"MYINT": ["long", "*"]}},
    {"types": {"MYINT": ["int"]}, "values": {"EXTRA_VAL": 4}, "macros": {"LEVEL": "2"}},
    {"macros": {}},
    {"fnmacros": {"h0_ADD": ["({} - {})", [0, 1]]}},
    {"types": {"MYINT": ["int", "*", {"quals": [["const"], []]}]}},
    {"types": {"MYINT": ["int", "*", {"quals": [["volatile"], []]}]}},
    {"types": {"MYINT": ["int", {"quals": [["const"]]}]}},
    {"structs": {"pre_s": [None, [["a", "int", None]]]}, "macros": {"LEVEL": "2"}},
    {"structs": {"pre_s": [2, [["a", "int", None]]]}, "macros": {"LEVEL": "2"}},
    {"structs": {"pre_s": [2, [["a", "int", None]]]}},
    {"variables": {"pre_v": [3, ["int"]]}},
    {"variables": {"pre_v": [4, ["int"]]}},
    {"functions": {"defined_everywhere": [["int"], []]}},
    {"enums": {"preset": {"A": 1}}, "values": {"A": 1}},
]
#: the copied parsers 1 and 2 come from files of the same name
COPIES = [[], [], [], [1], [2], [1, 2], [2, 1], [3], [1, 3], [3, 2]]


def rand_opts(rng, rich=True):
    files = rng.choice([[0], [0], [0, 1], [0, 1], [0, 1, 2], [1, 0], [2, 0], [1], [1, 2],
                        [0, 1, 3], [3, 0], [0, 1, 0]])
    o = {"files": files, "replace": None, "encoding": "utf-8", "kwargs": {}, "copy": []}
    if rng.random() < 0.5:
        o["replace"] = rng.choice(REPLACES)
    if rng.random() < 0.5:
        o["kwargs"] = rng.choice(KWARGS)
    if rng.random() < 0.25:
        o["copy"] = rng.choice(COPIES)
    if rng.random() < 0.15:
        o["encoding"] = rng.choice(["latin-1", "cp1252", "utf-8"])
    o["spell"] = rng.choice(["abs", "abs", "abs", "rel", "name", "str"])
    if o["spell"] == "str" and len(files) != 1:
        o["spell"] = "abs"
    return o


def mutate_opts(rng, o):
    """Another argument set differing from o in one respect."""
    o = json.loads(json.dumps(o))
    k = rng.choice(["replace", "replace", "kwargs", "kwargs", "copy", "encoding", "files", "order"])
    if o["copy"] and rng.random() < 0.5:
        # the same number of parsers, of files of the same names if possible
        o["copy"] = [{1: 2, 2: 1}.get(v, v) for v in o["copy"]]
        return o
    if k == "replace":
        r = o["replace"]
        how = rng.random()
        if r and len(r) > 1 and how < 0.4:
            o["replace"] = r[::-1]
        elif r and how < 0.7:
            i = rng.randrange(len(r))
            r[i] = [r[i][0], rng.choice([x for x in ("int", "char", "short", "float") if x != r[i][1]])]
        else:
            o["replace"] = rng.choice([x for x in REPLACES if x != o["replace"]])
    elif k == "kwargs":
        kw = o["kwargs"]
        how = rng.random()
        if kw.get("macros") and how < 0.4:
            n = rng.choice(sorted(kw["macros"]))
            if rng.random() < 0.5:
                kw["macros"][n] = rng.choice([x for x in ("1", "2", "3") if x != kw["macros"][n]])
            else:
                del kw["macros"][n]
        elif kw.get("values") and how < 0.6:
            n = rng.choice(sorted(kw["values"]))
            kw["values"][n] += 1
        else:
            o["kwargs"] = rng.choice([r for r in KWARGS if r != o["kwargs"]])
    elif k == "copy":
        o["copy"] = rng.choice([r for r in COPIES if r != o["copy"]])
    elif k == "encoding":
        o["encoding"] = rng.choice([e for e in ("utf-8", "latin-1") if e != o["encoding"]])
    elif k == "files":
        o["files"] = rng.choice([f for f in ([0], [0, 1], [0, 1, 2], [1], [0, 1, 1])
                                 if _names(f) != _names(o["files"])])
        if o["spell"] == "str" and len(o["files"]) != 1:
            o["spell"] = "abs"
    elif _names(o["files"][::-1]) != _names(o["files"]):
        o["files"] = o["files"][::-1]
    return o


def _names(files):
    """What identifies the headers: their names, their directories may change."""
    return [os.path.basename(HEADERS[h]) for h in files]


def relevant_styles(opts):
    """Styles whose text reacts to what the argument sets use."""
    want = set()
    for o in opts:
        if o["replace"]:
            want.add("tokens")
        if o["copy"]:
            want.add("base")
        if o["encoding"] != "utf-8":
            want.add("nonascii")
        if "macros" in o["kwargs"]:
            want |= {"cond", "cross"}
        if {"types", "values", "structs", "variables"} & set(o["kwargs"]):
            want.add("ext")
        if "functions" in o["kwargs"]:
            want.add("cross")
        if "fnmacros" in o["kwargs"]:
            want.add("fnmacro")
        if len(o["files"]) > 1:
            want.add("cross")
    return [i for i, st in enumerate(STYLES) if want & set(st)] or list(range(len(STYLES)))


def build_kwargs(o, base):
    """CParser keyword arguments for an opts dict (without files / cache)."""
    from pyclibrary.c_parser import Struct, Type

    def _type(t):
        if isinstance(t[-1], dict):
            return Type(*t[:-1], type_quals=tuple(map(tuple, t[-1]["quals"])))
        return Type(*t)

    kw = {}
    for k, d in o["kwargs"].items():
        if k == "types":
            kw[k] = {n: _type(t) for n, t in d.items()}
        elif k == "structs":
            kw[k] = {n: Struct(*[tuple([m[0], Type(m[1]), m[2]]) for m in t[1]], pack=t[0])
                     for n, t in d.items()}
        elif k == "variables":
            kw[k] = {n: (t[0], _type(t[1])) for n, t in d.items()}
        elif k == "functions":
            kw[k] = {n: Type(_type(t[0]), tuple(map(tuple, t[1]))) for n, t in d.items()}
        elif k == "fnmacros":
            kw[k] = {n: (t[0], list(t[1])) for n, t in d.items()}
        else:
            kw[k] = dict(d)
    if o["replace"] is not None:
        kw["replace"] = dict((a, b) for a, b in o["replace"])
    if o["encoding"] != "utf-8":
        kw["encoding"] = o["encoding"]
    if o["copy"]:
        cf = [base(v) for v in o["copy"]]
        kw["copy_from"] = cf[0] if len(cf) == 1 else cf
    return kw


# --- reference -------------------------------------------------------------------


def oracle(req, wd):
    """Reference: what the parser says about these texts without a cache."""
    from pyclibrary import CParser

    if req["kind"] != "parse":
        raise ValueError(req["kind"])

    def base(v):
        p = base_path(wd, v)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(base_text(v))
        return CParser([p])

    o = req["opts"]
    os.makedirs(os.path.join(wd, "sub"), exist_ok=True)
    for name, data in req["files"]:
        with open(os.path.join(wd, name), "wb") as f:
            f.write(data)
    paths = [os.path.join(wd, name) for name, _ in req["files"]]
    try:
        p = CParser(paths, **build_kwargs(o, base))
    except (OSError, UnicodeError) as e:
        return ("exc", type(e).__name__)
    return ("ok", C.canon_parser(p))


# --- world ------------------------------------------------------------------------


class World:
    def __init__(self, env, plan, sim):
        self.env, self.plan, self.sim = env, plan, sim
        self.root = env.dir
        self.inc = os.path.join(self.root, "inc")
        self.cdir = os.path.join(self.root, "cache")
        for d in (self.inc, os.path.join(self.inc, "sub"), self.cdir, os.path.join(self.root, "probe"),
                  *(os.path.dirname(base_path(os.path.join(self.root, "base"), v))
                    for v in (1, 2, 3))):
            os.makedirs(d)
        self.cache = os.path.join(self.cdir, "c.cache")
        self.fs = fsim.FileSim(sim, self.root, plan["cfg"])
        self.fs.classify = self.classify
        self.seq = 0
        self.hist = {h: [] for h in range(NH)}  # (seq, (v, style, enc) or None)
        self.last_mtime = 0
        self.scans = 0
        self.bases = {}
        self.exits = []
        self.nontrivial = 0
        self.last_write_by = None

    # -- helpers

    def tick(self):
        self.seq += 1
        return self.seq

    def classify(self, p):
        if p == self.cache:
            return "cache"
        d = os.path.dirname(p)
        if d == self.cdir or d == os.path.join(self.root, "tmp"):
            return "tmp"
        if d == self.inc or d == os.path.join(self.inc, "sub"):
            return "header"
        return "other"

    def hpath(self, h):
        return os.path.join(self.inc, HEADERS[h])

    def cur(self, h):
        return self.hist[h][-1][1] if self.hist[h] else None

    def versions(self, h, start):
        """Versions of header h live at some time since seq start."""
        prev, out = None, []
        for s, v in self.hist[h]:
            if s <= start:
                prev = v
            else:
                out.append(v)
        return [prev] + out

    def ever(self, h):
        return [v for _, v in self.hist[h] if v is not None]

    def write_header(self, h, v, style, enc="utf-8", mtime=None):
        """Atomic replacement by the environment, with a later mtime."""
        p = self.hpath(h)
        with self.sim.quiet():
            tmp = os.path.join(self.root, "edit.tmp")
            with fsim.R_open(tmp, "wb") as f:
                f.write(header_bytes(h, v, style, enc))
            if mtime is None:
                self.sim.now_ns += 1_000_003
                mtime = max(self.sim.now_ns, self.last_mtime + 1_000_000)
                self.last_mtime = mtime
            fsim.R["utime"](tmp, ns=(mtime, mtime))
            fsim.R["replace"](tmp, p)
        self.hist[h].append((self.tick(), (v, style, enc)))

    def remove_header(self, h):
        with self.sim.quiet():
            try:
                fsim.R["unlink"](self.hpath(h))
            except FileNotFoundError:
                pass
        self.hist[h].append((self.tick(), None))

    def base(self, v):
        if v not in self.bases:
            from pyclibrary import CParser

            with self.sim.quiet():
                p = base_path(os.path.join(self.root, "base"), v)
                with fsim.R_open(p, "w") as f:
                    f.write(base_text(v))
                self.bases[v] = CParser([p])
        return self.bases[v]

    def file_args(self, o):
        names = [HEADERS[h] for h in o["files"]]
        sp = o.get("spell", "abs")
        if sp == "str":
            return os.path.join(self.inc, names[0])
        if sp == "rel":
            return [os.path.join("inc", n) for n in names]
        if sp == "name":
            return list(names)
        return [os.path.join(self.inc, n) for n in names]

    def ref(self, o, vec):
        """Reference result for versions vec (aligned with o['files'])."""
        oo = {k: o[k] for k in ("replace", "encoding", "kwargs", "copy")}
        files = [(HEADERS[h], header_bytes(h, *v)) for h, v in zip(o["files"], vec)]
        return self.env.oracle.ask({"kind": "parse", "opts": oo, "files": files})

    def vectors(self, o, start, missing_any=True):
        """Version vectors that may be seen by a build that began at start.

        Yields (vector, had_missing).  Most recent first.
        """
        per = []
        missing = False
        for h in o["files"]:
            vs = self.versions(h, start)
            alts = [v for v in reversed(vs) if v is not None]
            if None in vs or not vs:
                missing = True
                if missing_any:
                    alts += [v for v in reversed(self.ever(h)) if v not in alts]
            uniq = []
            for a in alts:
                if a not in uniq:
                    uniq.append(a)
            per.append(uniq)
        return list(itertools.islice(itertools.product(*per), 200)), missing

    # -- running

    def setup(self):
        import pyparsing
        import pyclibrary
        from pyclibrary import utils

        os.chdir(self.root)
        self.CParser = pyclibrary.CParser
        pyclibrary.auto_init()
        utils.add_header_locations([self.inc])
        for h, (v, style, enc) in enumerate(self.plan["headers"]):
            self.write_header(h, v, style, enc)
        world = self
        real = pyparsing.ParserElement.scan_string

        def scan_string(self, instring, *a, **k):
            if "mark_h" in instring:
                world.scans += 1
            return real(self, instring, *a, **k)

        core.fast_grammar_locks()
        pyparsing.ParserElement.scan_string = scan_string
        pyparsing.ParserElement.scanString = scan_string
        self.fs.install()
        self.tick()

    def cache_arg(self, op):
        if op.get("relcache"):
            return os.path.join("cache", "c.cache")
        return self.cache

    def build(self, t, op, o):
        """Run one constructor call; returns a record of the outcome."""
        # everything of the harness itself happens before the operation starts
        with self.sim.quiet():
            kw = build_kwargs(o, self.base)
        fa = self.file_args(o)
        if op.get("cache", True):
            kw["cache"] = self.cache_arg(op)
        if not op.get("check", True):
            kw["check_cache_validity"] = False
        rec = {"start": self.seq, "exc": None, "parser": None, "crashed": False,
               "scans0": self.scans, "opts": o, "op": op}
        t.nofaults = bool(op.get("clean"))
        self.sim.begin(t, op["id"])
        rec["start"] = self.seq
        self.tick()
        try:
            if op.get("two_step"):
                kw2 = {k: kw.pop(k) for k in ("cache", "check_cache_validity") if k in kw}
                p = self.CParser(fa, process_all=False, **kw)
                p.process_all(**kw2)
            else:
                p = self.CParser(fa, **kw)
            rec["parser"] = p
        except SimCrash:
            rec["crashed"] = True
        except SimAbort:
            raise
        except Exception as e:
            if t.dead:
                rec["crashed"] = True
            else:
                rec["exc"] = e
        if t.dead and not rec["crashed"]:
            # the kill was swallowed by code that ran on; nothing it did counts
            rec["crashed"] = True
            rec["parser"] = None
        rec["faults"] = list(t.op_faults)
        rec["end"] = self.tick()
        rec["scans"] = self.scans - rec["scans0"]
        self.sim.log("build", t.id, op["id"], "crash" if rec["crashed"] else
                     type(rec["exc"]).__name__ if rec["exc"] else "ok", rec["scans"])
        return rec

    # -- environment operations common to all

    def env_op(self, t, op):
        """Returns True if op was an environment operation."""
        k = op["op"]
        sim = self.sim
        if k == "edit":
            sim.begin(t, op["id"])
            self.write_header(op["h"], op["v"], op["style"], op.get("enc", "utf-8"))
        elif k == "touch":
            sim.begin(t, op["id"])
            c = self.cur(op["h"])
            if c is not None:
                self.write_header(op["h"], *c)
        elif k == "rmh":
            sim.begin(t, op["id"])
            self.remove_header(op["h"])
        elif k == "advance":
            sim.begin(t, op["id"])
            sim.now_ns += int(op["s"] * 1e9)
        elif k == "rmcache":
            sim.begin(t, op["id"])
            with sim.quiet():
                if os.path.lexists(self.cache):
                    fsim.R["unlink"](self.cache)
        elif k == "garbage":
            sim.begin(t, op["id"])
            with sim.quiet():
                self.garbage(op)
        else:
            return False
        sim.log("env", t.id, k, op.get("h"), op.get("v"))
        self.tick()
        return True

    def garbage(self, op):
        """Damage the cache file the way crashes, full disks and other programs do."""
        kind = op["kind"]
        data = b""
        if os.path.exists(self.cache):
            with fsim.R_open(self.cache, "rb") as f:
                data = f.read()
        r = random.Random("garbage:%s" % op["x"])
        if kind == "trunc":
            data = data[: min(int(len(data) * op["x"]), len(data) - 1)] if data else b""
        elif kind == "empty":
            data = b""
        elif kind == "noise":
            data = r.randbytes(200)
        elif kind == "text":
            data = b"not a cache\n" * 3
        elif kind == "none":
            data = pickle.dumps(None)
        elif kind == "dict":
            data = pickle.dumps({"opts": {}, "version": 2})
        elif kind == "list":
            data = pickle.dumps([1, 2, 3])
        elif kind == "zeros":
            n = max(0, min(int(len(data) * op["x"]), len(data) - 1))
            data = data[:n] + b"\0" * (len(data) - n)
        elif kind == "gone_class":
            data = b"cnosuchmodule\nNoSuchClass\n."
        with fsim.R_open(self.cache, "wb") as f:
            f.write(data)
        ns = self.sim.now_ns + 10**9
        fsim.R["utime"](self.cache, ns=(ns, ns))

    # -- judgement

    def undecodable(self, o, start):
        for h in o["files"]:
            for v in self.versions(h, start):
                if v is not None:
                    try:
                        header_bytes(h, *v).decode(o["encoding"])
                    except UnicodeDecodeError:
                        return True
        return False

    READ_SIDE = ("openr", "read", "stat", "fstat")

    def check_marks(self, rec):
        """Every header's own markers must be there (independent of the reference)."""
        p = rec["parser"]
        for h, ver in zip(rec["opts"]["files"], rec["vec"]):
            try:
                text = header_bytes(h, *ver).decode(rec["opts"]["encoding"])
            except UnicodeDecodeError as e:
                raise Violation("undecodable-accepted", "%s holds bytes which are no %s text, but "
                                "building the parser did not fail" % (HEADERS[h], e.encoding))
            m = expected_marks(h, ver[0], ver[1], text)
            for k, want in m["values"].items():
                if p.defs["values"].get(k) != want:
                    raise Violation("header-cut", "%s: value %s is %r instead of %r" % (
                        HEADERS[h], k, p.defs["values"].get(k), want))
            for f in m["functions"]:
                if f not in p.defs["functions"] or f not in p.file_defs[os.path.basename(HEADERS[h])]["functions"]:
                    raise Violation("header-cut", "%s: function %s is missing" % (HEADERS[h], f))

    def judge(self, rec, allow_missing_error=True):
        """C01 oracle for one finished build."""
        o = rec["opts"]
        use_cache = rec["op"].get("cache", True)
        vecs, missing = self.vectors(o, rec["start"], missing_any=use_cache)
        if rec["crashed"]:
            return "crash"
        if rec["exc"] is not None:
            e = rec["exc"]
            hard = [f for f in rec["faults"]
                    if f["kind"] not in ("short", "crash", "crash_after", "torn")]
            src = [f for f in hard if f.get("cls") == "header"
                   or f.get("on") not in self.READ_SIDE]
            if isinstance(e, OSError):
                if src or missing:
                    return "error"
            if isinstance(e, UnicodeError) and self.undecodable(o, rec["start"]):
                return "error"
            for v in vecs:
                r = self.ref(o, v)
                if r[0] == "exc" and r[1] == type(e).__name__:
                    return "error"
            raise Violation(
                "build-failed",
                "building a parser raised %s: %s although %s"
                % (type(e).__name__, e,
                   "only reading the cache failed (%s)" % _f(hard) if hard
                   else "nothing failed"),
            )
        got = C.canon_parser(rec["parser"])
        first = None
        for v in vecs:
            r = self.ref(o, v)
            if r[0] == "ok":
                if r[1] == got:
                    rec["vec"] = v
                    return "ok"
                if first is None:
                    first = (v, r[1])
        if first is None:
            raise Violation("no-definitions-possible",
                            "a parser was built although no header version could be read")
        raise Violation(
            "wrong-definitions",
            "parser with cache differs from a cache-less parse of the current headers "
            "(files %s, versions %s, faults %s):\n  %s"
            % ([HEADERS[h] for h in o["files"]], first[0], _f(rec["faults"]),
               "\n  ".join(C.diff(got, first[1]))),
        )


def _f(faults):
    return ", ".join("%s on %s %s" % (f["kind"], f.get("on", "?"), f.get("path", "")) for f in faults) or "none"


# --- plan helpers -------------------------------------------------------------------


def rand_headers(rng, opts=()):
    out = []
    rel = relevant_styles(opts)
    for h in range(NH):
        style = rng.choice(rel) if rng.random() < 0.7 else rng.randrange(len(STYLES))
        out.append([1, style, "utf-8" if rng.random() < 0.9 else "latin-1"])
    return out


def fault_rates(rng, kinds, scale=1.0):
    """Swarm: a random subset of fault kinds, each at a random rate."""
    r = {}

    def add(key, name, p):
        r.setdefault(key, []).append([name, p * scale])

    if "cacheread" in kinds:
        if rng.random() < 0.6:
            add("openr:cache", rng.choice(["EIO", "EACCES", "EMFILE"]), rng.choice([0.05, 0.3]))
        if rng.random() < 0.6:
            add("read:cache", "EIO", rng.choice([0.02, 0.1]))
        if rng.random() < 0.3:
            add("stat:cache", rng.choice(["EIO", "EACCES", "ENOENT"]), 0.05)
    if "short" in kinds:
        add("read:cache", "short", rng.choice([0.1, 0.5]))
        add("read:header", "short", rng.choice([0.1, 0.5]))
        for c in ("cache", "tmp"):
            add("write:" + c, "short", rng.choice([0.1, 0.4]))
    if "headerread" in kinds:
        if rng.random() < 0.7:
            add("openr:header", rng.choice(["EIO", "EACCES", "EMFILE", "ENOENT"]), rng.choice([0.03, 0.2]))
        if rng.random() < 0.7:
            add("read:header", "EIO", rng.choice([0.03, 0.2]))
    if "write" in kinds:
        for c in ("cache", "tmp"):
            if rng.random() < 0.6:
                add("openw:" + c, rng.choice(["ENOSPC", "EACCES", "EROFS", "EMFILE"]), rng.choice([0.05, 0.2]))
            if rng.random() < 0.7:
                add("write:" + c, rng.choice(["ENOSPC", "EIO", "ENOSPC_part"]), rng.choice([0.02, 0.1]))
            if rng.random() < 0.4:
                add("close:" + c, rng.choice(["EIO", "ENOSPC"]), 0.1)
            if rng.random() < 0.5:
                add("replace:" + c, rng.choice(["EIO", "EACCES", "ENOSPC"]), 0.15)
            if rng.random() < 0.3:
                add("fsync:" + c, "EIO", 0.2)
    if "crash" in kinds:
        for c in ("cache", "tmp"):
            add("openw:" + c, "crash", 0.04)
            add("openw:" + c, "crash_after", 0.04)
            add("write:" + c, "torn", rng.choice([0.02, 0.1]))
            add("write:" + c, "crash_after", 0.02)
            add("close:" + c, "crash", 0.05)
            add("replace:" + c, "crash", 0.08)
            add("replace:" + c, "crash_after", 0.08)
            add("utime:" + c, "crash", 0.05)
            add("unlink:" + c, "crash", 0.05)
            add("unlink:" + c, "crash_after", 0.05)
            add("stat:" + c, "crash", 0.01)
        add("stat:header", "crash", 0.01)
        add("read:header", "crash", 0.01)
    return r


GARBAGE = ["trunc", "trunc", "empty", "noise", "text", "none", "dict", "list", "zeros",
           "gone_class"]

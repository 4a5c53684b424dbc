"""C02: the cache file is replaced atomically."""

import os

from .. import cacheworld as W
from .. import canon as C
from .. import fsim
from ..cacheworld import oracle  # noqa: F401
from ..core import SimCrash, Violation

ID = "C02"
RULE = ("seeded histories of cache writes by 1-3 processes or threads with failing, short and torn writes, "
        "failing open/close/rename and kills at every system call; the cache path is probed after "
        "every change to it; non-trivial: at least one fault or preemption fell into a cache "
        "write, or two processes wrote")
REAL = ["pyclibrary.c_parser (all)", "pyclibrary.init", "pyparsing", "pickle",
        "Python buffered I/O"]
STUB = ["raw file system calls (pass-through with faults, simulated mtimes)", "clock", "pid",
        "os.urandom", "locks (scheduled)", "processes are threads of one interpreter"]
RUNS = {"quick": 700, "thorough": 40000}


def plan(rng, tier):
    multi = rng.random() < 0.35
    o1 = W.rand_opts(rng)
    o1["files"] = rng.choice([[0], [0, 1]])
    if o1["spell"] == "str" and len(o1["files"]) > 1:
        o1["spell"] = "abs"
    pool = [o1, o1, W.mutate_opts(rng, o1)]
    kinds = {"short"} if rng.random() < 0.5 else set()
    if rng.random() < 0.75:
        kinds.add("write")
    if rng.random() < 0.6 or not kinds:
        kinds.add("crash")
    if rng.random() < 0.2:
        kinds.add("cacheread")
    if rng.random() < 0.2:
        kinds.add("headerread")
    # threads of one process, or processes of containers which share the cache
    samepid = multi and rng.random() < 0.35
    if samepid:
        kinds.discard("crash")
        kinds.add("short")
    n = [0]
    ver = {h: 1 for h in range(W.NH)}

    def nid():
        n[0] += 1
        return "o%d" % n[0]

    def build():
        r = rng.random()
        if r < 0.08:
            # nothing to parse: must not replace what is there
            return {"op": "emptybuild", "id": nid(), "how": rng.choice(["none", "list", "bad"])}
        return {"op": "build", "id": nid(), "opts": rng.choice(pool),
                "relcache": rng.random() < 0.2, "two_step": rng.random() < 0.1}

    def edit():
        h = rng.choice(o1["files"])
        ver[h] += 1
        return {"op": "edit", "id": nid(), "h": h, "v": ver[h],
                "style": rng.randrange(len(W.STYLES))}

    tasks = []
    if multi:
        for i in range(rng.choice([2, 2, 3])):
            ops = []
            for _ in range(rng.choice([1, 2, 2])):
                if rng.random() < 0.4:
                    ops.append(edit())
                ops.append(build())
            tasks.append({"name": "proc%d" % i, "ops": ops})
    else:
        ops = [build()]
        for _ in range(rng.choice([1, 2, 3, 4])):
            r = rng.random()
            if r < 0.6:
                ops.append(edit())
            elif r < 0.7:
                ops.append({"op": "rmh", "id": nid(), "h": rng.choice(o1["files"])})
            elif r < 0.78:
                ops.append({"op": "link", "id": nid()})
            ops.append(build())
        tasks.append({"name": "main", "ops": ops})
    return {
        "headers": W.rand_headers(rng, pool),
        "tasks": tasks,
        "clean_first": rng.random() < 0.6,
        "cfg": {
            "sched": {"kind": "rand", "p": rng.choice([0.1, 0.3, 0.6])} if multi else {"kind": "none"},
            "rates": W.fault_rates(rng, kinds),
            "bufsize": rng.choice([64, 256, 1024, 8192]),
            "pid": 40000 if samepid else None,
        },
    }


def run(env, plan, sim):
    w = W.World(env, plan, sim)
    w.setup()
    single = len(plan["tasks"]) == 1
    started = []  # (opts, seq) of every build that may have written the cache
    state = {"sig": None, "good": False, "writes": 0, "faulty": 0, "probes": 0}

    def allowed():
        """Definitions a complete cache may hold."""
        for o, start in reversed(started):
            vecs, _ = w.vectors(o, start)
            for v in vecs:
                r = w.ref(o, v)
                if r[0] == "ok":
                    yield r[1]

    def probe(why):
        """The cache path must be absent or hold one complete cache."""
        p = w.cache
        try:
            with fsim.R_open(p, "rb") as f:
                data = f.read()
        except FileNotFoundError:
            state["sig"] = None
            return
        sig = hash(data)
        if sig == state["sig"]:
            return
        state["probes"] += 1
        cp = os.path.join(w.root, "probe", "c.cache")
        with fsim.R_open(cp, "wb") as f:
            f.write(data)
        try:
            parser = w.CParser(None, cache=cp, check_cache_validity=False)
            got = C.canon_parser(parser)
        except Exception as e:
            raise Violation("torn-cache", "after %s the cache path holds %d bytes which "
                            "cannot be loaded: %r" % (why, len(data), e))
        for a in allowed():
            if a == got:
                state["sig"] = sig
                state["good"] = True
                return
        raise Violation(
            "torn-cache", "after %s the cache path holds %d bytes which are not a complete "
            "cache of any parse (%d definitions load from it)"
            % (why, len(data), sum(len(x) for x in parser.defs.values())))

    inodes = {}

    def on_mutate(p, how):
        real = os.path.realpath(p)
        if real == os.path.realpath(w.cache) or p == w.cache:
            state["writes"] += 1
            if started:
                probe("%s of %s by %s" % (how, w.fs.rel(p), sim.task().name))

    w.fs.on_mutate = on_mutate

    def listing():
        out = set()
        for d in (w.cdir, os.path.join(w.root, "tmp"), w.inc, w.root):
            for n in os.listdir(d):
                out.add(os.path.join(d, n))
        return out

    def usable():
        return state["good"] and os.path.exists(w.cache)

    def one(t, op):
        o = op["opts"]
        started.append((o, w.seq))
        with sim.quiet():
            before = listing()
            was = usable()
            w0 = state["writes"]
        rec = w.build(t, op, o)
        with sim.quiet():
            wf = [f for f in rec["faults"] if f.get("cls") in ("cache", "tmp")
                  and f.get("on") in ("openw", "write", "close", "replace", "fsync")
                  and f["kind"] not in ("short", "crash", "crash_after", "torn", "ENOSPC_part")]
            if wf or rec["crashed"]:
                state["faulty"] += 1
            sim.count("build_" + ("crash" if rec["crashed"] else "exc" if rec["exc"] else "ok"))
            probe("the end of %s" % op["id"])
            if was and not os.path.exists(w.cache):
                raise Violation("cache-lost", "the previous cache is gone after a build that %s"
                                % ("was killed" if rec["crashed"] else "ended with %r" % rec["exc"]))
            if rec["exc"] is not None:
                if single:
                    left = listing() - before
                    left = {x for x in left if x != w.cache}
                    if left:
                        raise Violation("stray-file", "a failed build (%r, faults: %s) left %s behind"
                                        % (rec["exc"], W._f(rec["faults"]),
                                           sorted(w.fs.rel(x) for x in left)))
                if wf and not [f for f in rec["faults"] if f.get("cls") == "header"]:
                    errs = {"ENOSPC": 28, "EIO": 5, "EACCES": 13, "EROFS": 30, "EMFILE": 24}
                    want = {errs[f["kind"]] for f in rec["faults"] if f["kind"] in errs}
                    if not isinstance(rec["exc"], OSError) or rec["exc"].errno not in want:
                        if not _plain_error(rec):
                            raise Violation(
                                "wrong-error", "a cache write failed with %s but the caller got %r"
                                % (W._f(wf), rec["exc"]))
            elif not rec["crashed"] and wf:
                # errors while closing a file opened for reading are not write errors
                hard = [f for f in wf if f["on"] in ("openw", "write", "replace")]
                if hard:
                    raise Violation("error-lost", "a cache write failed (%s) but the caller was "
                                    "not told" % W._f(hard))
            if single and not rec["crashed"] and rec["exc"] is None:
                left = {x for x in listing() - before if x != w.cache}
                if left:
                    raise Violation("stray-file", "a successful build left %s behind"
                                    % sorted(w.fs.rel(x) for x in left))
            w.judge(rec)

    def _plain_error(rec):
        """The headers themselves cannot be parsed (missing, undecodable)."""
        o = rec["opts"]
        vecs, missing = w.vectors(o, rec["start"])
        if missing and isinstance(rec["exc"], OSError):
            return True
        return any(w.ref(o, v)[0] == "exc" for v in vecs)

    def empty(t, op):
        sim.begin(t, op["id"])
        with sim.quiet():
            was = usable()
        files = {"none": None, "list": [], "bad": ["nosuch_dir/nosuch.h"]}[op["how"]]
        try:
            # with other arguments than those the cache was made with
            w.CParser(files, cache=w.cache, macros={"EMPTY_BUILD": "1"})
            ok = True
        except SimCrash:
            return
        except Exception:
            ok = False
        with sim.quiet():
            sim.count("empty_builds")
            if t.dead:
                return
            if op["how"] == "bad" and ok:
                raise Violation("missing-header-ignored",
                                "a parser was built from a header that does not exist")
            if was:
                if not os.path.exists(w.cache):
                    raise Violation("cache-lost", "a build without files removed the cache")
                probe("a build without any file to parse")

    def link(t, op):
        """The user keeps the cache elsewhere and links to it."""
        sim.begin(t, op["id"])
        with sim.quiet():
            real = os.path.join(w.root, "base", "real.cache")
            if os.path.exists(w.cache) and not os.path.islink(w.cache):
                fsim.R["replace"](w.cache, real)
                fsim.R["symlink"](real, w.cache)
                sim.count("linked_cache")

    def body(ops):
        def go(t):
            for op in ops:
                if w.env_op(t, op):
                    continue
                if op["op"] == "emptybuild":
                    empty(t, op)
                elif op["op"] == "link":
                    link(t, op)
                else:
                    one(t, op)

        return go

    if plan.get("clean_first"):
        # a usable cache written before anything goes wrong
        o = next((op["opts"] for tk in plan["tasks"] for op in tk["ops"] if "opts" in op), None)
        if o is not None:
            started.append((o, w.seq))
            with_cache = W.build_kwargs(o, w.base)
            try:
                w.CParser(w.file_args(o), cache=w.cache, **with_cache)
            except (OSError, UnicodeError):
                pass
            if os.path.exists(w.cache):
                ns = os.stat(w.cache).st_mtime_ns
                if ns > sim.now_ns * 1.2:  # stamped by the real clock
                    fsim.R["utime"](w.cache, ns=(sim.now_ns, sim.now_ns))
            w.tick()
            probe("the first build")
    for tk in plan["tasks"]:
        sim.spawn(tk["name"], body(tk["ops"]))
    sim.run()
    sim.count("probes", state["probes"])
    return {"nontrivial": state["writes"] > 0 and (state["faulty"] > 0 or sim.switches > 1)}

"""C03: a valid cache is used, even without the headers."""

import os
import pickle
import shutil
import subprocess
import sys

from .. import cacheworld as W
from .. import canon as C
from .. import fsim, runner
from ..cacheworld import oracle  # noqa: F401
from ..core import Violation

ID = "C03"
RULE = ("seeded histories of clean and faulty builds, header edits/deletions, argument changes, "
        "damaged and removed caches and fresh interpreters on one cache path, judged by a small "
        "model of what the cache holds; non-trivial: at least one build for which the model "
        "demands that the cache is used or that an OSError is raised")
REAL = ["pyclibrary.c_parser (all)", "pyclibrary.init", "pyclibrary.utils.find_header",
        "pyparsing (scan_string counted)", "pickle", "Python buffered/text I/O"]
STUB = ["raw file system calls (pass-through with faults, simulated mtimes)", "clock", "pid",
        "os.urandom"]
RUNS = {"quick": 800, "thorough": 40000}
_Popen = subprocess.Popen


def plan(rng, tier):
    o1 = W.rand_opts(rng)
    pool = [o1] * 4
    if rng.random() < 0.5:
        pool.append(W.mutate_opts(rng, o1))
    kinds = set()
    if rng.random() < 0.6:
        for k in ("cacheread", "short", "headerread", "write", "crash"):
            if rng.random() < 0.5:
                kinds.add(k)
    n = [0]
    ver = {h: 1 for h in range(W.NH)}

    def nid():
        n[0] += 1
        return "o%d" % n[0]

    def build(**k):
        d = {"op": "build", "id": nid(), "opts": rng.choice(pool), "clean": rng.random() < 0.75,
             "relcache": rng.random() < 0.15, "two_step": rng.random() < 0.1}
        d.update(k)
        return d

    def env():
        h = rng.choice(o1["files"]) if rng.random() < 0.85 else rng.randrange(3)
        r = rng.random()
        if r < 0.3:
            ver[h] += 1
            return {"op": "edit", "id": nid(), "h": h, "v": ver[h],
                    "style": rng.randrange(len(W.STYLES))}
        if r < 0.4:
            return {"op": "touch", "id": nid(), "h": h}
        if r < 0.7:
            return {"op": "rmh", "id": nid(), "h": h}
        if r < 0.8:
            return {"op": "advance", "id": nid(), "s": rng.choice([0.001, 1, 3600, 86400 * 400])}
        if r < 0.88:
            return {"op": "rmcache", "id": nid()}
        return {"op": "garbage", "id": nid(), "kind": rng.choice(W.GARBAGE), "x": round(rng.random(), 3)}

    ops = [build(opts=o1)]
    if rng.random() < 0.5:
        ops[0]["clean"] = True
    for _ in range(rng.choice([2, 3, 4, 6, 8])):
        r = rng.random()
        if r < 0.45:
            ops.append(build())
        elif r < 0.6:
            ops.append(build(check=False, clean=True))
        else:
            ops.append(env())
    ops += [build(clean=True, opts=o1), build(clean=True, opts=o1)]
    if rng.random() < 0.12:
        ops.append({"op": "fresh", "id": nid(), "opts": o1})
    # the model recognises a parse by what is scanned, which must be something
    heads = W.rand_headers(rng, pool)
    for v in heads + [o for o in ops if o["op"] == "edit"]:
        k = "style" if isinstance(v, dict) else 1
        if "empty" in W.STYLES[v[k]]:
            v[k] = 7
    return {
        "headers": heads,
        "tasks": [{"name": "main", "ops": ops}],
        "cfg": {"sched": {"kind": "none"}, "rates": W.fault_rates(rng, kinds),
                "bufsize": rng.choice([64, 256, 1024, 8192])},
    }


def same(a, b):
    return all(a[k] == b[k] for k in ("files", "replace", "encoding", "kwargs", "copy"))


def run(env, plan, sim):
    w = W.World(env, plan, sim)
    w.setup()
    # model: what the cache file holds
    #   stored : (opts, vector) of the parse it was written by, None = no readable cache,
    #            "?" = unknown (a faulty build came in between)
    #   stale  : the headers that have changed since
    # An edit of a header that is missing by now cannot be seen, so such a cache may be
    # used or refused.
    m = {"stored": None, "stale": set()}
    decided = [0]

    def build(t, op):
        o = op["opts"]
        check = op.get("check", True)
        with sim.quiet():
            miss = [h for h in o["files"] if w.cur(h) is None]
        rec = w.build(t, op, o)
        st = m["stored"]
        with sim.quiet():
            if not op["clean"] and rec["faults"]:
                sim.count("faulty_builds")
                if check:
                    w.judge(rec)
                m["stored"] = "?"
                return
            if rec["crashed"]:
                m["stored"] = "?"
                return
            known = st not in (None, "?")
            if check:
                must = known and not m["stale"] and same(st[0], o)
                hidden = known and same(st[0], o) and all(h in miss for h in m["stale"])
                if must:
                    decided[0] += 1
                    use(rec, st, "nothing changed since the cache was written"
                        + (" (headers %s are gone)" % miss if miss else ""))
                    sim.count("used_missing" if miss else "used")
                elif hidden:
                    sim.count("hidden_edit")
                    w.judge(rec)
                elif miss and st != "?":
                    decided[0] += 1
                    sim.count("missing_error")
                    if rec["exc"] is None:
                        raise Violation("missing-header-ignored", "header %s is missing and the "
                                        "cache is not valid, but a parser was returned" % miss)
                    if not isinstance(rec["exc"], OSError) and not (
                            isinstance(rec["exc"], UnicodeError) and undecodable(o)):
                        raise Violation("wrong-error", "header %s is missing: got %r instead of "
                                        "an OSError" % (miss, rec["exc"]))
                else:
                    w.judge(rec)
            else:
                if known:
                    decided[0] += 1
                    sim.count("unchecked_use")
                    if o["encoding"] == st[0]["encoding"] or not undecodable(o):
                        unchecked(rec, st, o)
                elif st is None and miss:
                    decided[0] += 1
                    if not isinstance(rec["exc"], OSError) and not (
                            isinstance(rec["exc"], UnicodeError) and undecodable(o)):
                        raise Violation("missing-header-ignored", "header %s is missing and there "
                                        "is no cache: expected an OSError, got %r"
                                        % (miss, rec["exc"]))
            # what the cache holds now
            if rec["exc"] is None:
                if rec["scans"] or (check and not known):
                    vec = tuple(w.cur(h) for h in o["files"])
                    if None in vec:
                        m["stored"] = "?"
                    elif rec["scans"]:
                        m["stored"], m["stale"] = (o, vec), set()
                elif check and not miss:
                    pass

    def undecodable(o):
        vec = [w.cur(h) for h in o["files"]]
        vec = [v for v in vec if v is not None]
        for h, v in zip([h for h in o["files"] if w.cur(h)], vec):
            try:
                W.header_bytes(h, *v).decode(o["encoding"])
            except UnicodeDecodeError:
                return True
        return False

    def use(rec, st, why):
        if rec["exc"] is not None:
            if isinstance(rec["exc"], UnicodeError) and undecodable(rec["opts"]):
                return
            raise Violation("cache-not-used", "%s, but the build failed: %r" % (why, rec["exc"]))
        if rec["scans"]:
            raise Violation("cache-not-used", "%s, but the headers were parsed again" % why)
        r = w.ref(*st)
        got = C.canon_parser(rec["parser"])
        if r[0] == "ok" and got != r[1]:
            raise Violation("wrong-definitions", "%s, but the definitions differ from those "
                            "stored:\n  %s" % (why, "\n  ".join(C.diff(got, r[1]))))

    def unchecked(rec, st, o):
        why = "validity checking is off and the cache is readable"
        if rec["exc"] is not None:
            if isinstance(rec["exc"], UnicodeError) and undecodable(o):
                return
            raise Violation("cache-not-used", "%s, but the build failed: %r" % (why, rec["exc"]))
        if rec["scans"]:
            raise Violation("cache-not-used", "%s, but the headers were parsed again" % why)
        r = w.ref(*st)
        if r[0] != "ok":
            return
        got = C.canon_parser(rec["parser"])
        if not o["kwargs"] and not o["copy"]:
            if got != r[1]:
                raise Violation("wrong-definitions", "%s, but the definitions differ from those "
                                "stored:\n  %s" % (why, "\n  ".join(C.diff(got, r[1]))))
        else:
            # the definitions given as arguments are there as well
            want = {k: dict(v[1]) for k, v in r[1][0][1]}
            have = {k: dict(v[1]) for k, v in got[0][1]}
            for k in want:
                for n, v in want[k].items():
                    if have[k].get(n) != v:
                        raise Violation("wrong-definitions", "%s, but %s %s is %r instead of %r"
                                        % (why, k, n, have[k].get(n), v))

    def fresh(t, op):
        """The same build in a new interpreter with another hash seed."""
        o = op["opts"]
        sim.begin(t, op["id"])
        with sim.quiet():
            st = m["stored"]
            if st in (None, "?") or m["stale"] or not same(st[0], o):
                return
            d = os.path.join(w.root, "fresh")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for n in ("inc", "cache"):
                shutil.copytree(os.path.join(w.root, n), os.path.join(d, n))
                for f in os.listdir(os.path.join(w.root, n)):
                    s = fsim.R["stat"](os.path.join(w.root, n, f))
                    fsim.R["utime"](os.path.join(d, n, f), ns=(s.st_mtime_ns, s.st_mtime_ns))
            p = _Popen([sys.executable, "-B", os.path.join(runner.HERE, "sim", "freshproc.py")],
                       stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       env=dict(os.environ, PYTHONHASHSEED="777"))
            out, _ = p.communicate(pickle.dumps({"repo": runner.REPO, "dir": d, "opts": o}))
            if p.returncode or not out:
                raise RuntimeError("fresh interpreter failed (%s)" % p.returncode)
            kind, val, scans = pickle.loads(out)
            decided[0] += 1
            sim.count("fresh_process")
            if kind == "exc":
                if undecodable(o):
                    return
                raise Violation("cache-not-used", "another process could not use the cache: " + val)
            if scans:
                raise Violation("cache-not-used", "another process parsed the headers again "
                                "although nothing changed")
            if val != w.ref(*st)[1]:
                raise Violation("wrong-definitions", "another process got other definitions")

    def go(t):
        for op in plan["tasks"][0]["ops"]:
            k = op["op"]
            if w.env_op(t, op):
                if k in ("edit", "touch"):
                    st = m["stored"]
                    if st not in (None, "?") and op["h"] in st[0]["files"]:
                        m["stale"].add(op["h"])
                elif k in ("rmcache", "garbage"):
                    m["stored"] = None
                continue
            if k == "fresh":
                fresh(t, op)
            else:
                build(t, op)

    sim.spawn("main", go)
    sim.run()
    return {"nontrivial": decided[0] > 0}

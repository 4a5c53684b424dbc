"""C01: a cache never changes what a parser says."""

from .. import cacheworld as W
from ..cacheworld import oracle  # noqa: F401  (used by the runner)
from ..core import SimAbort, Violation

ID = "C01"
RULE = ("seeded histories of builds sharing one cache path (argument changes, header edits, "
        "deletions, touches, damaged caches, parser upgrades/downgrades, 1-3 processes) with "
        "injected read/write failures, short transfers, torn writes and crashes; non-trivial: "
        "at least two builds finished and at least one of them met a cache file")
REAL = ["pyclibrary.c_parser (all)", "pyclibrary.init", "pyclibrary.utils.find_header",
        "pyparsing", "pickle", "Python buffered/text I/O"]
STUB = ["raw file system calls (pass-through with faults, simulated mtimes)", "clock", "pid",
        "os.urandom", "locks (scheduled)", "processes are threads of one interpreter"]
RUNS = {"quick": 900, "thorough": 40000}


def plan(rng, tier):
    multi = rng.random() < 0.3
    o1 = W.rand_opts(rng)
    pool = [o1, o1, o1]
    for _ in range(rng.choice([0, 1, 1, 2])):
        pool.append(W.mutate_opts(rng, rng.choice(pool)))
    rel = W.relevant_styles(pool)

    def style():
        return rng.choice(rel) if rng.random() < 0.6 else rng.randrange(len(W.STYLES))

    kinds = set()
    if rng.random() < 0.75:
        for k in ("cacheread", "short", "headerread", "write", "crash"):
            if rng.random() < 0.45:
                kinds.add(k)
    n = [0]
    ver = {h: 1 for h in range(W.NH)}

    def nid():
        n[0] += 1
        return "o%d" % n[0]

    def build():
        return {"op": "build", "id": nid(), "opts": rng.choice(pool),
                "relcache": rng.random() < 0.15, "two_step": rng.random() < 0.1}

    def env(damage=True):
        h = rng.choice(o1["files"]) if rng.random() < 0.8 else rng.randrange(3)
        r = rng.random()
        if r < 0.45 or not damage and r < 0.7:
            ver[h] += 1
            return {"op": "edit", "id": nid(), "h": h, "v": ver[h],
                    "style": style(),
                    "enc": "utf-8" if rng.random() < 0.9 else "latin-1"}
        if r < 0.53:
            return {"op": "touch", "id": nid(), "h": h}
        if r < 0.6:
            return {"op": "rmh", "id": nid(), "h": h}
        if r < 0.68:
            return {"op": "advance", "id": nid(), "s": rng.choice([0.001, 1, 3600, 86400 * 40])}
        if r < 0.74:
            return {"op": "rmcache", "id": nid()}
        if r < 0.9 or multi:
            return {"op": "garbage", "id": nid(), "kind": rng.choice(W.GARBAGE),
                    "x": round(rng.random(), 3)}
        ver[h] += 1
        return {"op": "oldbuild", "id": nid(), "ver": rng.choice([1, 3, 7, 0]), "h": h,
                "v": ver[h], "style": style(), "opts": rng.choice(pool)}

    tasks = []
    if multi:
        for i in range(rng.choice([2, 2, 3])):
            tasks.append({"name": "proc%d" % i,
                          "ops": [build() for _ in range(rng.choice([1, 2, 2, 3]))]})
        if rng.random() < 0.8:
            tasks.append({"name": "env",
                          "ops": [env(False) for _ in range(rng.choice([1, 2, 3]))]})
    else:
        ops = [build()]
        for _ in range(rng.choice([2, 3, 4, 6, 8])):
            ops.append(build() if rng.random() < 0.6 else env())
        ops.append(build())
        tasks.append({"name": "main", "ops": ops})
    return {
        "headers": W.rand_headers(rng, pool),
        "tasks": tasks,
        "cfg": {
            "sched": {"kind": "rand", "p": rng.choice([0.05, 0.2, 0.5])} if multi else {"kind": "none"},
            "rates": W.fault_rates(rng, kinds),
            "bufsize": rng.choice([64, 256, 1024, 8192]),
        },
    }


def run(env, plan, sim):
    w = W.World(env, plan, sim)
    w.setup()
    done = [0]
    met = [0]

    def body(ops):
        def go(t):
            import os

            for op in ops:
                if w.env_op(t, op):
                    continue
                if op["op"] == "oldbuild":
                    oldbuild(t, op)
                    continue
                with sim.quiet():
                    had = os.path.exists(w.cache)
                rec = w.build(t, op, op["opts"])
                with sim.quiet():
                    r = w.judge(rec)
                    if r == "ok":
                        w.check_marks(rec)
                done[0] += r == "ok"
                met[0] += bool(r == "ok" and had)
                sim.count("build_" + r)
                if r == "ok" and not rec["scans"]:
                    sim.count("cache_hits")
            return

        return go

    def oldbuild(t, op):
        """A parser of another cache_version, which reads the header differently.

        Its different reading is modelled by giving it another header text with
        the modification time of the real one.
        """
        import os

        h = op["h"]
        cur = w.cur(h)
        if cur is None or h not in op["opts"]["files"]:
            return
        cls = w.CParser
        saved = cls.cache_version
        with sim.quiet():
            mt = os.stat(w.hpath(h)).st_mtime_ns
        w.write_header(h, op["v"], op["style"], "utf-8", mtime=mt)
        cls.cache_version = saved + op["ver"] - 2 if op["ver"] else saved - 2
        try:
            w.build(t, dict(op, cache=True), op["opts"])
        finally:
            cls.cache_version = saved
            w.write_header(h, *cur, mtime=mt)
        sim.count("oldbuild")

    for tk in plan["tasks"]:
        sim.spawn(tk["name"], body(tk["ops"]))
    sim.run()
    return {"nontrivial": done[0] >= 2 and met[0] >= 1}

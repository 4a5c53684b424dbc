"""C11: header reads are all or nothing."""

from .. import cacheworld as W
from ..cacheworld import oracle  # noqa: F401
from ..core import Violation

ID = "C11"
RULE = ("seeded parser constructions (with and without cache) while headers vanish, are replaced, "
        "fail to open, fail in mid-read, are read in short pieces or hold undecodable bytes; "
        "non-trivial: at least one fault or header change fell into a construction")
REAL = ["pyclibrary.c_parser (all)", "pyclibrary.init", "pyclibrary.utils.find_header",
        "pyparsing", "Python buffered/text I/O"]
STUB = ["raw file system calls (pass-through with faults, simulated mtimes)", "clock", "pid",
        "os.urandom", "locks (scheduled)"]
RUNS = {"quick": 900, "thorough": 40000}


def plan(rng, tier):
    o1 = W.rand_opts(rng)
    pool = [o1, o1]
    if rng.random() < 0.3:
        pool.append(W.mutate_opts(rng, o1))
    usecache = rng.random() < 0.4
    envtask = rng.random() < 0.6
    n = [0]
    ver = {h: 1 for h in range(W.NH)}

    def nid():
        n[0] += 1
        return "o%d" % n[0]

    def enc():
        return "utf-8" if rng.random() < 0.8 else "latin-1"

    def build(**k):
        d = {"op": "build", "id": nid(), "opts": rng.choice(pool),
             "cache": usecache and rng.random() < 0.8, "two_step": rng.random() < 0.2}
        d.update(k)
        return d

    def env():
        h = rng.choice(o1["files"])
        r = rng.random()
        if r < 0.5:
            ver[h] += 1
            return {"op": "edit", "id": nid(), "h": h, "v": ver[h],
                    "style": rng.randrange(len(W.STYLES)), "enc": enc()}
        if r < 0.9:
            return {"op": "rmh", "id": nid(), "h": h}
        return {"op": "advance", "id": nid(), "s": rng.choice([0.01, 5])}

    rates = {}

    def add(key, name, p):
        rates.setdefault(key, []).append([name, p])

    for key, names, ps in (
        ("openr:header", ["EIO", "EACCES", "EMFILE", "ENOENT"], [0.1, 0.3]),
        ("read:header", ["EIO"], [0.05, 0.2]),
        ("read:header", ["short"], [0.3, 0.8]),
        ("stat:header", ["ENOENT", "EACCES", "EIO"], [0.05, 0.15]),
        ("close:header", ["EIO"], [0.1]),
        ("fstat:header", ["EIO"], [0.1]),
    ):
        if rng.random() < 0.5 and not (key.startswith("stat") and usecache):
            add(key, rng.choice(names), rng.choice(ps))
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        ops.append(build())
        if not envtask and rng.random() < 0.5:
            ops.append(env())
    tasks = [{"name": "builder", "ops": ops}]
    if envtask:
        tasks.append({"name": "env", "ops": [env() for _ in range(rng.choice([1, 2, 3, 4]))]})
    hs = W.rand_headers(rng, pool)
    for h in hs:
        h[2] = enc()
    return {
        "headers": hs, "tasks": tasks,
        "cfg": {"sched": {"kind": "rand", "p": rng.choice([0.1, 0.3])} if envtask else {"kind": "none"},
                "rates": rates, "bufsize": rng.choice([16, 64, 256, 1024, 8192])},
    }


def run(env, plan, sim):
    w = W.World(env, plan, sim)
    w.setup()
    hit = [0]
    last = {}

    def judge(rec):
        r = w.judge(rec)
        if r == "ok":
            w.check_marks(rec)
        sim.count("build_" + r)
        if rec["faults"] or any(rec["start"] < s for h in rec["opts"]["files"] for s, _ in w.hist[h]):
            hit[0] += 1
        if rec["exc"] is not None and not isinstance(rec["exc"], (OSError, UnicodeError)):
            raise Violation("wrong-error", "expected OSError or UnicodeError, got %r" % rec["exc"])

    def body(ops):
        def go(t):
            for op in ops:
                if not w.env_op(t, op):
                    rec = w.build(t, op, op["opts"])
                    with sim.quiet():
                        judge(rec)
                    last["o"] = op["opts"]

        return go

    for tk in plan["tasks"]:
        sim.spawn(tk["name"], body(tk["ops"]))
    sim.run()
    if sim.violation is None and sim.error is None and last:
        # faults have stopped: restore missing headers, then the build must succeed
        o = last["o"]

        def final(t):
            for h in o["files"]:
                if w.cur(h) is None or w.cur(h)[2] != "utf-8":
                    w.write_header(h, 90 + h, 0)
            for cache in (False, True):
                op = {"op": "build", "id": "final%d" % cache, "cache": cache, "clean": True}
                rec = w.build(t, op, o)
                with sim.quiet():
                    if rec["exc"] is not None:
                        raise Violation("no-recovery", "after the faults stopped the build still "
                                        "fails: %r" % rec["exc"])
                    w.judge(rec)
                    w.check_marks(rec)

        sim.tasks.clear()
        sim.spawn("final", final)
        sim.run()
    return {"nontrivial": hit[0] > 0}

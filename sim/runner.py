"""Runs a property's simulations: worker pool, fork per run, minimiser, evidence."""

import gc
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

from . import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = None
RUN_TIMEOUT = 90
_R_time = time.time
_R_mono = time.monotonic


def module(prop):
    return importlib.import_module("sim.props." + prop.lower())


def bootstrap():
    """Import the package from the working tree, with the simulator's locks."""
    global SCRATCH
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    try:
        st = os.statvfs(base)
        if st.f_bavail * st.f_frsize < 300 << 20:
            base = tempfile.gettempdir()
    except OSError:
        base = tempfile.gettempdir()
    SCRATCH = tempfile.mkdtemp(prefix="vsim.", dir=base)
    os.makedirs(os.path.join(SCRATCH, "memo"))
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(SCRATCH, "pyc")
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != os.path.realpath(REPO)]
    sys.path.insert(0, REPO)
    import encodings.latin_1, encodings.utf_8, encodings.ascii, encodings.cp1252  # noqa
    import encodings.utf_16, encodings.idna, encodings.utf_8_sig  # noqa
    import logging, pickle, subprocess, uuid, weakref, pprint, ctypes.util  # noqa
    import copy, shutil, shlex, pathlib, glob, contextlib, fcntl, locale  # noqa
    import queue, concurrent.futures.thread, json, csv, zlib, gzip, hashlib  # noqa

    core.install_locks()
    logging.getLogger().addHandler(logging.NullHandler())
    logging.raiseExceptions = False
    import pyclibrary
    import pyclibrary.backends.ctypes  # noqa
    import pyclibrary.c_library, pyclibrary.c_parser, pyclibrary.init, pyclibrary.utils  # noqa

    f = os.path.realpath(pyclibrary.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise core.HarnessError("pyclibrary imported from %s" % f)
    # importing must not have initialised anything
    return pyclibrary


def cleanup():
    if SCRATCH and os.path.isdir(SCRATCH):
        shutil.rmtree(SCRATCH, ignore_errors=True)


# --- framed pickles over pipes -----------------------------------------------


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    mv = memoryview(b)
    while mv:
        n = _os_write(fd, mv)
        mv = mv[n:]


_os_write = os.write
_os_read = os.read


def _recv(fd, timeout=None):
    def need(n):
        out = b""
        while len(out) < n:
            if timeout is not None:
                left = end - _R_mono()
                r, _, _ = select.select([fd], [], [], max(0, left))
                if not r:
                    raise TimeoutError()
            d = _os_read(fd, min(1 << 20, n - len(out)))
            if not d:
                raise EOFError()
            out += d
        return out

    end = _R_mono() + timeout if timeout is not None else None
    (n,) = struct.unpack("<Q", need(8))
    return pickle.loads(need(n))


# --- reference oracle ---------------------------------------------------------


class Oracle:
    """Answers reference questions, each in a pristine forked process.

    Lives in its own process so that nothing it does can influence a run.
    """

    def __init__(self, mod, workdir):
        self.mod = mod
        self.dir = workdir
        self.start()

    def start(self):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(b)
                os.close(c)
                self.serve(a, d)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c

    def serve(self, rfd, wfd):
        memo = {}
        n = 0
        while True:
            try:
                req = _recv(rfd)
            except EOFError:
                return
            key = hashlib.sha1(pickle.dumps(req)).hexdigest()
            shared = os.path.join(SCRATCH, "memo", key)
            if key not in memo:
                try:
                    with open(shared, "rb") as f:
                        memo[key] = pickle.load(f)
                except (OSError, EOFError, pickle.UnpicklingError):
                    pass
            if key not in memo:
                n += 1
                wd = os.path.join(self.dir, "oracle")
                shutil.rmtree(wd, ignore_errors=True)
                os.makedirs(wd)
                x, y = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(x)
                        os.chdir(wd)
                        try:
                            res = ("ok", self.mod.oracle(req, wd))
                        except BaseException:
                            res = ("error", traceback.format_exc())
                        _send(y, res)
                    finally:
                        os._exit(0)
                os.close(y)
                try:
                    memo[key] = _recv(x, RUN_TIMEOUT)
                except (EOFError, TimeoutError):
                    os.kill(pid, signal.SIGKILL)
                    memo[key] = ("error", "oracle process died or hung")
                os.close(x)
                os.waitpid(pid, 0)
                if memo[key][0] == "ok":
                    tmp = os.path.join(self.dir, "memo.tmp")
                    with open(tmp, "wb") as f:
                        pickle.dump(memo[key], f)
                    os.replace(tmp, shared)
            _send(wfd, memo[key])

    def ask(self, req):
        _send(self.w, req)
        st, val = _recv(self.r, RUN_TIMEOUT)
        if st == "error":
            raise OracleFailed(val)
        return val

    def stop(self):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except OSError:
            pass


class OracleFailed(Exception):
    pass


# --- one run -------------------------------------------------------------------


class Env:
    """What a property's world gets."""

    def __init__(self, mod, workdir, oracle, tier):
        self.mod = mod
        self.dir = workdir
        self.oracle = oracle
        self.tier = tier


def make_plan(mod, seed, tier):
    rng = random.Random("plan:%s:%s" % (mod.ID, seed))
    plan = mod.plan(rng, tier)
    plan["seed"] = seed
    return json.loads(json.dumps(plan))


def run_child(env, plan, trace, keep_log):
    """Body of the forked process: returns the result dict."""
    cfg = dict(plan.get("cfg", {}))
    cfg["keep_log"] = keep_log
    sim = core.Sim(plan["seed"], cfg, trace, step_limit=cfg.get("step_limit", 400_000))
    res = {"violation": None, "error": None}
    try:
        extra = env.mod.run(env, plan, sim) or {}
    except core.Violation as e:
        extra = {}
        sim.fail(e.cls, e.detail)
    except BaseException as e:
        extra = {}
        if sim.error is None:
            sim.error = traceback.format_exc()
            sim.error_exc = e
    if sim.error is not None and sim.violation is None:
        if _in_repo(sim.error):
            sim.violation = ("unexpected-exception", sim.error[-3000:])
        else:
            res["error"] = sim.error[-6000:]
    res["violation"] = sim.violation
    res.update(
        steps=sim.steps, switches=sim.switches, stats=sim.stats,
        faults=sim.fault_counts, sim_ns=sim.now_ns - core.BASE_NS,
        log=sim.log_crc, ilv=sim.ilv_crc, trace=sim.trace(), extra=extra,
    )
    if keep_log:
        res["log_lines"] = sim.log_lines
    return res


def _in_repo(tb):
    """Did an exception pass through the package (also in the reference)?"""
    if "HarnessError" in tb:
        return False
    pk = os.path.realpath(REPO) + os.sep + "pyclibrary" + os.sep
    return any(l.strip().startswith('File "' + pk) for l in tb.splitlines())


def execute(env, plan, trace=None, keep_log=False, timeout=RUN_TIMEOUT):
    """Fork, run, collect."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            run_dir = os.path.join(env.dir, "run")
            shutil.rmtree(run_dir, ignore_errors=True)
            os.makedirs(run_dir)
            os.chdir(run_dir)
            e2 = Env(env.mod, run_dir, env.oracle, env.tier)
            gc.disable()
            try:
                res = run_child(e2, plan, trace, keep_log)
            except BaseException:
                res = {"violation": None, "error": traceback.format_exc()}
            _send(w, res)
        finally:
            os._exit(0)
    os.close(w)
    try:
        res = _recv(r, timeout)
    except TimeoutError:
        res = {"died": "timeout"}
    except EOFError:
        res = {"died": "eof"}
    os.close(r)
    if res.get("died"):
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    if res.get("died"):
        env.oracle.stop()
        env.oracle.start()
        if res["died"] == "timeout":
            what = ("no-progress", "the run did not end within %ds of wall time" % timeout)
        elif os.WIFSIGNALED(st):
            what = ("process-died", "killed by signal %d" % os.WTERMSIG(st))
        else:
            what = ("process-died", "ended without a result")
        res = dict(violation=what, error=None, steps=0, switches=0, stats={}, faults={},
                   sim_ns=0, log=0, ilv=0, trace=trace or {"preempts": {}, "faults": {}},
                   extra={}, died=True)
    return res


# --- batch ---------------------------------------------------------------------


def worker_main(wid, mod, tier, seed, total, counter, stop, deadline, conn, keep_log):
    try:
        wd = os.path.join(SCRATCH, "w%02d" % wid)
        os.makedirs(wd, exist_ok=True)
        oracle = Oracle(mod, wd)
        env = Env(mod, wd, oracle, tier)
        while not stop.value:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= total or _R_mono() > deadline:
                break
            s = "%d:%d" % (seed, i)
            plan = make_plan(mod, s, tier)
            res = execute(env, plan, keep_log=keep_log)
            if res.get("died"):
                res2 = execute(env, plan, keep_log=keep_log)
                if not res2.get("died"):
                    res = res2
            if not res.get("violation") and not res.get("error"):
                res.pop("trace", None)
            conn.send((i, res))
            if res.get("violation") or res.get("error"):
                stop.value = 1
        oracle.stop()
    except BaseException:
        conn.send((-1, {"error": traceback.format_exc()}))
        stop.value = 1
    conn.send(None)


def batch(mod, tier, seed, runs, workers, wall_cap, keep_log=False, on_result=None):
    counter = multiprocessing.Value("q", 0)
    stop = multiprocessing.Value("b", 0)
    deadline = _R_mono() + wall_cap
    procs, conns = [], []
    sys.stdout.flush()
    for w in range(workers):
        a, b = multiprocessing.Pipe(False)
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                worker_main(w, mod, tier, seed, runs, counter, stop, deadline, b, keep_log)
            finally:
                os._exit(0)
        b.close()
        procs.append(pid)
        conns.append(a)
    results = {}
    live = list(conns)
    while live:
        for c in multiprocessing.connection.wait(live):
            try:
                m = c.recv()
            except EOFError:
                m = None
                if c in live:
                    live.remove(c)
                continue
            if m is None:
                live.remove(c)
                continue
            results[m[0]] = m[1]
            if on_result:
                on_result(*m)
    for p in procs:
        try:
            os.waitpid(p, 0)
        except OSError:
            pass
    return results


# --- minimisation ----------------------------------------------------------------


def _chunks(items):
    """Delta-debugging order: big chunks first."""
    n = len(items)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            yield set(items[i:i + size])
        size //= 2


def minimise(env, plan, trace, cls, budget_s=90, max_exec=600):
    """Shrink operations, faults and preemptions while the violation class stays."""
    t_end = _R_mono() + budget_s
    count = [0]

    def ok(p, t):
        if _R_mono() > t_end or count[0] >= max_exec:
            return None
        count[0] += 1
        r = execute(env, p, t, timeout=60)
        v = r.get("violation")
        return r if v and v[0] == cls else None

    cur = ok(plan, trace)
    if cur is None:
        return plan, trace, None, count[0]

    def shrink_list(get, put):
        nonlocal plan, trace, cur
        changed = True
        while changed and _R_mono() < t_end:
            changed = False
            items = get()
            for ch in _chunks(list(range(len(items)))):
                items = get()
                if max(ch, default=-1) >= len(items):
                    continue
                keep = [x for i, x in enumerate(items) if i not in ch]
                if len(keep) == len(items):
                    continue
                p, t = put(keep)
                r = ok(p, t)
                if r is not None:
                    plan, trace, cur = p, t, r
                    changed = True
                    break

    def with_map(name):
        def get():
            return sorted(trace[name].items())

        def put(items):
            t = dict(trace)
            t[name] = dict(items)
            return plan, t

        return get, put

    def with_ops(k):
        def get():
            return plan["tasks"][k]["ops"]

        def put(items):
            p = json.loads(json.dumps(plan))
            p["tasks"][k]["ops"] = items
            return p, trace

        return get, put

    for _round in range(2):
        shrink_list(*with_map("faults"))
        for k in range(len(plan["tasks"])):
            shrink_list(*with_ops(k))
        shrink_list(*with_map("preempts"))
        if len(trace["preempts"]) + len(trace["faults"]) + sum(
                len(t["ops"]) for t in plan["tasks"]) < 6:
            break
    # drop map entries that were never consulted
    r = ok(plan, trace)
    if r is not None:
        used = r["trace"]
        t2 = {
            "preempts": {k: v for k, v in trace["preempts"].items() if k in used["preempts"] or k.endswith("!") or k.endswith("end") or k == "start"},
            "faults": {k: v for k, v in trace["faults"].items() if k in used["faults"]},
        }
        r2 = ok(plan, t2)
        if r2 is not None:
            trace, cur = t2, r2
    return plan, trace, cur, count[0]

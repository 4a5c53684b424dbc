"""Deterministic simulator core.

One run = one forked process.  All caller threads ("tasks") are real threads
that are parked and released one at a time; who runs next, where a task is
preempted, which fault happens at which point and what the simulated clock
reads is decided by this module only, from one PRNG (search) or from a recorded
trace (replay).

Decision points are
  * every source line (optionally every bytecode instruction) executed in the
    package under test (sys.monitoring events on its code objects),
  * every intercepted file / process / lock / clock operation,
  * the yield callbacks made by the simulated C library.
A point is named "<task>.<op>.<n>": the n-th point of operation <op> of task
<task>.  Names do not depend on what other tasks or other operations do, which
keeps traces meaningful while they are minimised.
"""

import _thread
import errno
import ctypes
import gc
import random
import sys
import types
import zlib

MON = sys.monitoring
TOOL = 3
EV = MON.events

BASE_NS = 1_000_000_000 * 10**9  # 2001-09-09, never a real mtime of today
TICK_NS = 1_700_001


class SimCrash(BaseException):
    """The simulated process was killed; nothing after this point happens."""


class SimAbort(BaseException):
    """The run is over (violation found, deadlock, step limit)."""


class HarnessError(Exception):
    """The harness itself is at fault."""


class Violation(Exception):
    def __init__(self, cls, detail):
        super().__init__(cls, detail)
        self.cls = cls
        self.detail = detail


class Task:
    def __init__(self, sim, tid, name, body):
        self.sim = sim
        self.id = tid
        self.name = name
        self.body = body
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.done = False
        self.started = False
        self.blocked_on = None
        self.deadline = None
        self.timed_out = False
        self.quiet = 0
        self.op = "-"
        self.n = 0
        self.dead = False  # process of this task was killed (until restarted)
        self.op_faults = []
        self.prio = 0
        self.ident = None
        self.loc = ("", 0)
        self.interrupt_at = None
        self.seen = set()
        self.pid = 40000 + tid
        self.held = []
        self.nofaults = False
        self.acquired = False  # lock.acquire() returned, no line executed since

    def __repr__(self):
        return "<T%s %s>" % (self.id, self.name)


class Sim:
    """State of one simulated run."""

    current_sim = None

    def __init__(self, seed, cfg, trace=None, step_limit=400_000):
        self.seed = seed
        self.cfg = cfg
        self.rng = random.Random("sched:%s" % (seed,))
        self.replay = trace is not None
        self.pre_in = dict(trace["preempts"]) if trace else {}
        self.flt_in = dict(trace["faults"]) if trace else {}
        self.pre_out = {}
        self.flt_out = {}
        self.tasks = []
        self.by_ident = {}
        self.current = None
        self.steps = 0
        self.step_limit = step_limit
        self.switches = 0
        self.aborting = False
        self.violation = None
        self.error = None
        self.now_ns = BASE_NS
        self.main_sem = _thread.allocate_lock()
        self.main_sem.acquire()
        self.stats = {}
        self.fault_counts = {}
        self.log_crc = 0
        self.ilv_crc = 0
        self.log_lines = [] if cfg.get("keep_log") else None
        self.on_point = None  # invariant hook, called at I/O points
        sch = cfg.get("sched", {})
        self.strategy = sch.get("kind", "none")
        self.p = sch.get("p", 0.0)
        self.focus = sch.get("focus")
        self.changes = set()
        self.int_points = cfg.get("int_rate", 0.0)
        self.gc_rate = cfg.get("gc_rate", 0.0)
        self._minprio = 0
        if self.strategy == "pct":
            k = max(2, sch.get("k", 500))
            self.changes = {
                int(k ** self.rng.random()) if sch.get("log") else self.rng.randrange(1, k)
                for _ in range(sch.get("d", 2))
            }
        Sim.current_sim = self

    # -- bookkeeping -----------------------------------------------------

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def log(self, *what):
        s = repr(what)
        self.log_crc = zlib.crc32(s.encode(), self.log_crc)
        if self.log_lines is not None:
            self.log_lines.append("%d %s" % (self.steps, s))

    def task(self):
        return self.by_ident.get(_thread.get_ident())

    def active(self):
        """Current task if inside simulated code, else None."""
        t = self.by_ident.get(_thread.get_ident())
        if t is None or t.quiet or t.done:
            return None
        return t

    class _Quiet:
        def __init__(self, t):
            self.t = t

        def __enter__(self):
            if self.t is not None:
                self.t.quiet += 1

        def __exit__(self, *a):
            if self.t is not None:
                self.t.quiet -= 1

    def quiet(self):
        return Sim._Quiet(self.by_ident.get(_thread.get_ident()))

    def fail(self, cls, detail):
        """Record the violation and stop the run."""
        if self.violation is None:
            self.violation = (cls, str(detail)[:4000])
        self.aborting = True

    # -- tasks -----------------------------------------------------------

    def spawn(self, name, body):
        t = Task(self, len(self.tasks), name, body)
        t.pid = self.cfg.get("pid") or t.pid
        self.tasks.append(t)
        if self.strategy == "pct":
            t.prio = self.rng.random() + 1
        return t

    def _thread_main(self, t):
        t.sem.acquire()
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        try:
            if not self.aborting:
                t.body(t)
        except SimAbort:
            pass
        except Violation as e:
            self.fail(e.cls, e.detail)
        except BaseException:
            import traceback

            t.quiet += 1
            if self.error is None:
                self.error = traceback.format_exc()
            self.aborting = True
        t.quiet += 1
        t.done = True
        self.by_ident.pop(t.ident, None)
        self._dispatch_after(t)

    def run(self):
        for t in self.tasks:
            if not t.started:
                t.started = True
                _thread.start_new_thread(self._thread_main, (t,))
        first = self._pick(None, "start")
        if first is None:
            return
        self.current = first
        first.sem.release()
        self.main_sem.acquire()
        self.current = None

    run_more = run  # another phase: tasks spawned since

    def _runnable(self):
        return [t for t in self.tasks if not t.done and t.blocked_on is None]

    def _pick(self, t, key):
        """Choose who runs when the current task cannot continue."""
        while True:
            cand = self._runnable()
            if cand:
                break
            waiting = [x for x in self.tasks if not x.done]
            if not waiting:
                return None
            timed = [x for x in waiting if x.deadline is not None]
            if timed and not self.aborting:
                w = min(timed, key=lambda x: (x.deadline, x.id))
                self.now_ns = max(self.now_ns, w.deadline)
                w.timed_out = True
                w.blocked_on = None
                w.deadline = None
                continue
            if not self.aborting:
                self.fail(
                    "deadlock",
                    "no task can run: "
                    + "; ".join(
                        "%s waits for %s at %s:%s" % (x.name, x.blocked_on, *x.loc)
                        for x in waiting
                    ),
                )
            for x in waiting:
                x.blocked_on = None
        if len(cand) == 1:
            return cand[0]
        if self.replay:
            want = self.pre_in.get(key)
            for c in cand:
                if c.id == want:
                    return c
            return cand[0]
        if self.strategy == "pct":
            c = max(cand, key=lambda x: x.prio)
        else:
            c = self.rng.choice(cand)
        if c is not cand[0]:
            self.pre_out[key] = c.id
        return c

    def _dispatch_after(self, t):
        nxt = self._pick(t, "%s.end" % t.id)
        if nxt is None:
            self.main_sem.release()
            return
        self.log("sw", t.id, nxt.id, "end")
        self.current = nxt
        nxt.sem.release()

    def _switch(self, t, nxt, why):
        self.switches += 1
        self.log("sw", t.id, nxt.id, why, t.loc)
        self.ilv_crc = zlib.crc32(
            ("%d>%d@%s:%s" % (t.id, nxt.id, t.loc[0], t.loc[1])).encode(), self.ilv_crc
        )
        self.current = nxt
        nxt.sem.release()
        t.sem.acquire()
        if self.aborting:
            raise SimAbort()

    def block(self, t, on, deadline=None):
        """Park the current task until wake(on) (or the deadline)."""
        t.blocked_on = on
        t.deadline = deadline
        t.timed_out = False
        t.n += 1
        key = "%s.%s.%s!" % (t.id, t.op, t.n)
        nxt = self._pick(t, key)
        if nxt is t:  # timed out at once / abort
            t.blocked_on = None
            t.deadline = None
            if self.aborting:
                raise SimAbort()
            return not t.timed_out
        self._switch(t, nxt, "block")
        t.deadline = None
        return not t.timed_out

    def wake(self, on):
        for t in self.tasks:
            if t.blocked_on is on:
                t.blocked_on = None

    # -- decision points -------------------------------------------------

    def point(self, t, kind, where=None):
        """Possible preemption / interrupt / gc at this point of task t."""
        if self.aborting:
            raise SimAbort()
        self.steps += 1
        t.n += 1
        if self.steps > self.step_limit:
            self.fail("no-progress", "step limit %d exceeded in %s (%s:%s)" % (
                self.step_limit, t.op, *t.loc))
            raise SimAbort()
        key = None
        if self.replay:
            if self.flt_in or self.pre_in:
                key = "%s.%s.%s" % (t.id, t.op, t.n)
                f = self.flt_in.get(key)
                if f is not None and f["kind"] in ("interrupt", "gc") and kind in ("line", "instr", "cret"):
                    self._async(t, key, f["kind"])
                want = self.pre_in.get(key)
                if want is not None:
                    for c in self.tasks:
                        if c.id == want and c is not t and not c.done and c.blocked_on is None:
                            self.pre_out[key] = want
                            self._switch(t, c, kind)
                            break
            return
        if t.interrupt_at is not None and where:
            # n: at the n-th point of the operation; ("new", n): at the n-th line
            # not executed before in it; ("cret", n): when the n-th call of a
            # foreign function returns; (f, n): at the n-th line executed in f
            ia = t.interrupt_at
            if isinstance(ia, int):
                hit = t.n >= ia and kind == "line"
            elif ia[0] == "new":
                hit = False
                if kind == "line" and t.loc not in t.seen:
                    t.seen.add(t.loc)
                    hit = len(t.seen) > ia[1]
            elif ia[0] == "cret" or kind != "line":
                hit = ia[0] == kind
                if hit and ia[1] > 0:
                    t.interrupt_at = (ia[0], ia[1] - 1)
                    hit = False
            else:
                hit = t.loc[0] == ia[0]
                if hit and ia[1] > 0:
                    t.interrupt_at = (ia[0], ia[1] - 1)
                    hit = False
            if hit:
                t.interrupt_at = None
                self._async(t, "%s.%s.%s" % (t.id, t.op, t.n), "interrupt")
        if self.gc_rate and kind in ("line", "instr") and self.rng.random() < self.gc_rate:
            self._async(t, "%s.%s.%s" % (t.id, t.op, t.n), "gc")
        st = self.strategy
        if st == "none":
            return
        if st == "pct":
            if self.steps in self.changes:
                self._minprio -= 1
                t.prio = self._minprio
            else:
                return
            cand = self._runnable()
            c = max(cand, key=lambda x: x.prio)
            if c is t:
                return
        else:
            p = self.p
            if self.focus is not None:
                p = 0.35 if t.loc[0] in self.focus else p
            if kind != "line" and kind != "instr":
                p = max(p, 0.2)
            if self.rng.random() >= p:
                return
            cand = [c for c in self.tasks if c is not t and not c.done and c.blocked_on is None]
            if not cand:
                return
            c = self.rng.choice(cand)
        self.pre_out["%s.%s.%s" % (t.id, t.op, t.n)] = c.id
        self._switch(t, c, kind)

    def _async(self, t, key, kind):
        self.flt_out[key] = {"kind": kind}
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1
        self.log("async", key, kind)
        if kind == "gc":
            with self.quiet():
                gc.collect()
        else:
            t.op_faults.append({"kind": "interrupt", "at": t.loc})
            raise KeyboardInterrupt("injected at %s:%s" % t.loc)

    def io(self, t, kind, path, choices):
        """An I/O point: preemption first, then possibly a fault.

        choices: list of (fault kind, probability); returns a fault dict or None.
        """
        self.now_ns += TICK_NS
        self.point(t, kind)
        key = "%s.%s.%s" % (t.id, t.op, t.n)
        if self.replay:
            f = self.flt_in.get(key)
            if f is not None and f["kind"] in ("interrupt", "gc"):
                f = None
            if f is not None and choices is not None and f["kind"] not in [c[0] for c in choices]:
                f = None
        else:
            f = None
            for name, p in choices or ():
                if p and self.rng.random() < p:
                    f = {"kind": name, "x": round(self.rng.random(), 6)}
                    break
        if f is not None:
            self.flt_out[key] = f
            self.fault_counts[f["kind"]] = self.fault_counts.get(f["kind"], 0) + 1
            t.op_faults.append({"kind": f["kind"], "on": kind, "path": path})
        self.log("io", t.id, t.op, kind, path, f and f["kind"])
        return f

    def trace(self):
        return {"preempts": self.pre_out, "faults": self.flt_out}

    # -- operations ------------------------------------------------------

    def begin(self, t, opid):
        t.op = opid
        t.n = 0
        t.op_faults = []
        t.interrupt_at = None
        t.seen.clear()
        if t.dead:
            # restarted: nothing of the killed process is left but its files
            t.dead = False
            t.pid += 100
            for lk in list(t.held):
                lk._o, lk._c = None, 0
                self.wake(lk)
            t.held.clear()
        self.point(t, "op")


# --- locks -----------------------------------------------------------------


class SimRLock:
    """Drop-in for threading.RLock whose contention the simulator schedules."""

    _re = True

    def __init__(self):
        self._o = None
        self._c = 0

    def __repr__(self):
        o = self._o
        return "<%s held by %s>" % (
            type(self).__name__, getattr(o, "name", o if o is None else "main"))

    def _me(self):
        sim = Sim.current_sim
        t = sim.task() if sim is not None else None
        return t if t is not None else _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        ok = self._acquire(blocking, timeout)
        sim = Sim.current_sim
        t = sim.task() if sim is not None else None
        if t is not None and ok:
            # "lock.acquire()" then "try:" is the usual way to write it by hand
            t.acquired = True
        return ok

    def _acquire(self, blocking=True, timeout=-1):
        sim = Sim.current_sim
        t = sim.task() if sim is not None else None
        me = t if t is not None else _thread.get_ident()
        if self._o == me and self._re:
            self._c += 1
            return True
        if t is not None and not t.quiet and not t.done:
            sim.point(t, "lock")
        deadline = None
        while True:
            if self._o is None:
                self._o = me
                self._c = 1
                if t is not None:
                    t.held.append(self)
                return True
            if self._o == me and self._re:
                self._c += 1
                return True
            if not blocking:
                return False
            if t is None:
                raise HarnessError("blocking on %r outside the simulation" % self)
            if deadline is None and timeout is not None and timeout >= 0:
                deadline = sim.now_ns + int(timeout * 1e9)
            if t.quiet:
                raise Violation(
                    "lock-held",
                    "%r is still held (by %s at %s:%s) when nothing should hold it"
                    % (self, getattr(self._o, "name", "?"), *getattr(self._o, "loc", ("?", 0))),
                )
            sim.count("lock_contention")
            if not sim.block(t, self, deadline):
                return False

    def release(self):
        if self._o is None or self._o != self._me():
            if self._re:
                raise RuntimeError("cannot release un-acquired lock")
            if self._o is None:
                raise RuntimeError("release unlocked lock")
        self._c -= 1
        if self._c <= 0:
            if type(self._o) is Task and self in self._o.held:
                self._o.held.remove(self)
            self._o = None
            self._c = 0
            sim = Sim.current_sim
            if sim is not None:
                sim.wake(self)

    def __enter__(self):
        self._acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._o is not None

    # for threading.Condition
    def _is_owned(self):
        return self._o is not None and self._o == self._me()

    def _release_save(self):
        st = (self._c, self._o)
        self._c = 1
        self.release()
        return st

    def _acquire_restore(self, st):
        self._acquire()
        self._c = st[0]

    def _at_fork_reinit(self):
        self._o = None
        self._c = 0


class SimLock(SimRLock):
    _re = False
    _is_owned = None
    _release_save = None
    _acquire_restore = None

    def __init__(self):
        super().__init__()
        # Condition must use its generic implementations for plain locks.

    def __getattribute__(self, name):
        if name in ("_is_owned", "_release_save", "_acquire_restore"):
            raise AttributeError(name)
        return super().__getattribute__(name)


class GrammarLock(_thread.RLock):
    """A fast lock for the grammar: no decision point unless it is contended."""

    waiting = 0

    def __enter__(self):
        if not self.acquire(False):
            self._wait()

    def __exit__(self, *a):
        self.release()
        if self.waiting:
            Sim.current_sim.wake(self)

    def _wait(self):
        sim = Sim.current_sim
        t = sim.task() if sim is not None else None
        if t is None:
            raise HarnessError("the grammar is in use outside the simulation")
        self.waiting += 1
        try:
            sim.count("grammar_contention")
            while not self.acquire(False):
                sim.block(t, self)
        finally:
            self.waiting -= 1


def fast_grammar_locks():
    """For worlds whose decision points are rarely inside the grammar."""
    import pyparsing

    for n in ("packrat_cache_lock", "recursion_lock"):
        if hasattr(pyparsing.ParserElement, n):
            setattr(pyparsing.ParserElement, n, GrammarLock())


def install_locks():
    """Replace the lock factories; call before importing the package."""
    import threading

    threading.RLock = SimRLock
    threading.Lock = SimLock
    threading._RLock = SimRLock
    threading._allocate_lock = SimLock


# --- line / instruction events ----------------------------------------------


def all_code(obj, seen):
    if obj in seen:
        return
    seen.add(obj)
    for c in obj.co_consts:
        if isinstance(c, types.CodeType):
            all_code(c, seen)


def package_code(prefix):
    """All code objects of the loaded modules below a path prefix."""
    seen = set()

    def visit(v, depth=0):
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                if f is not None:
                    visit(f)
            return
        w = getattr(v, "__wrapped__", None)
        if isinstance(w, types.FunctionType):
            visit(w)
        if isinstance(v, types.FunctionType):
            if v.__code__.co_filename.startswith(prefix):
                all_code(v.__code__, seen)
            for cell in v.__closure__ or ():
                try:
                    c = cell.cell_contents
                except ValueError:
                    continue
                if isinstance(c, types.FunctionType) and depth < 3:
                    visit(c, depth + 1)
        elif isinstance(v, type) and v.__module__.split(".")[0] == "pyclibrary":
            for x in vars(v).values():
                if x is not v and not isinstance(x, type):
                    visit(x)

    for name, mod in list(sys.modules.items()):
        f = getattr(mod, "__file__", None)
        if f and f.startswith(prefix):
            for v in list(vars(mod).values()):
                visit(v)
    return sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))


_shield = {}


def shielded(code):
    """Offsets at which the interpreter never delivers a signal.

    CPython looks for pending signals at function starts, backward jumps and after
    calls.  It never does so between the end of a ``with`` or ``try`` body and the
    first call of the clean-up, so an exception placed there would be a fault no
    user can meet.  Excluded are: instructions less protected than one executed since
    the last such place, everything inside handlers, and lines that only open a block.
    """
    out = _shield.get(code)
    if out is not None:
        return out
    import dis

    bc = dis.Bytecode(code)
    ins = list(bc)
    at = {i.offset: i for i in ins}
    table = list(bc.exception_entries)

    def cover(off):
        return [e for e in table if e.start <= off < e.end]

    def depth(off):
        return max([e.depth + 1 for e in cover(off)], default=0)

    out = set()
    deep = 0  # how well protected since the last place where signals are looked for
    for i in ins:
        # (a line may start at any instruction that can be jumped to)
        if depth(i.offset) < deep:
            out.add(i.offset)
        if i.opname in ("NOP", "PUSH_EXC_INFO", "WITH_EXCEPT_START"):
            out.add(i.offset)
        if any(at[e.target].opname in ("COPY", "CLEANUP_THROW") for e in cover(i.offset)):
            out.add(i.offset)
        if i.opname.startswith(("CALL", "JUMP_BACKWARD", "RESUME")):
            deep = depth(i.offset)
        else:
            deep = max(deep, depth(i.offset))
    for e in table:
        out.add(e.target)
    _shield[code] = out
    return out


class LinePoints:
    """Turns line events of the package into decision points."""

    def __init__(self, codes):
        self.codes = codes
        self.names = {c: c.co_qualname.replace("<locals>.", "") for c in codes}
        self.instr = set()

    def install(self, sim, codes=None, instr=(), cret=False):
        names = self.names
        by_ident = sim.by_ident
        get_ident = _thread.get_ident
        point = sim.point
        getframe = sys._getframe

        def on_line(code, line):
            t = by_ident.get(get_ident())
            if t is None or t.quiet or t.done:
                return
            t.loc = (names[code], line - code.co_firstlineno)
            if t.dead:
                raise SimCrash()
            if t.acquired:
                t.acquired = False
                point(t, "line")
            elif t.interrupt_at is not None:
                point(t, "line", getframe(1).f_lasti not in shielded(code))
            else:
                point(t, "line")

        def on_instr(code, off):
            t = by_ident.get(get_ident())
            if t is None or t.quiet or t.done:
                return
            t.loc = (names[code], off)
            point(t, "instr")

        def on_cret(code, off, fn, arg):
            # a signal that arrived during a foreign call is seen when it returns
            if isinstance(fn, ctypes._CFuncPtr):
                t = by_ident.get(get_ident())
                if t is not None and not t.quiet and not t.done and not t.dead:
                    t.loc = (names[code], -1)
                    point(t, "cret", True)

        MON.use_tool_id(TOOL, "sim")
        MON.register_callback(TOOL, EV.LINE, on_line)
        if cret:
            MON.register_callback(TOOL, EV.C_RETURN, on_cret)
        MON.register_callback(TOOL, EV.INSTRUCTION, on_instr)
        for c in codes if codes is not None else self.codes:
            fine = c.co_filename.endswith(tuple(instr)) if instr else False
            MON.set_local_events(TOOL, c, EV.LINE | (EV.INSTRUCTION if fine else 0)
                                 | (EV.CALL if cret else 0))

    def uninstall(self):
        for c in self.codes:
            MON.set_local_events(TOOL, c, 0)
        MON.free_tool_id(TOOL)


def oserr(name, path):
    e = getattr(errno, name)
    import os

    return OSError(e, os.strerror(e), path)

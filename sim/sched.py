"""Baton scheduler: real threads, one running at a time, the simulator decides who.

Every simulated task runs on its own OS thread but only while it holds the
baton.  A `sys.settrace` hook counts every executed line (or bytecode) of the
library under test; these counts are the simulator's logical time.  At each of
them the scheduler may hand the baton to another runnable task (preemption) or
raise a planned fault.  Blocking primitives used by the library or by joblib are
replaced by simulated ones (locks, sleeps, pools, executors, threads), so no
choice is ever left to the operating system.

A run is a pure function of (workload, plan): `plan` is either
 {"seed": s, "rate": r}   draw switches from a PRNG and record them, or
 {"switches": [[step, task], ...], "picks": [...]}   replay a recorded schedule.
"""
import _thread
import dis
import hashlib
import os
import random
import sys
import threading
import types

REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
SRC = os.path.join(REPO, "src") + os.sep

_real_thread_cls = threading.Thread
_real_lock = threading.Lock
_real_rlock = threading.RLock

_active = None


def active():
    return _active


class SimAbort(BaseException):
    """Unwinds the remaining tasks after the simulator stopped a run."""


class Deadlock(Exception):
    pass


class StepBudget(Exception):
    pass


class SimCrash(BaseException):
    """The simulated process dies here."""


FAULT_EXC = {
    "memory": lambda: MemoryError("injected: allocation failed"),
    "interrupt": lambda: KeyboardInterrupt("injected: interrupt"),
    "oserror": lambda: OSError(5, "injected: I/O error"),
    "crash": lambda: SimCrash("injected: crash"),
}


class Task:
    def __init__(self, tid, name, fn):
        self.id, self.name, self.fn = tid, name, fn
        self.state = "ready"
        self.pred = None
        self.wake = 0.0
        self.tstep = 0
        self.exc = None
        self.result = None
        self.baton = _thread.allocate_lock()
        self.baton.acquire()


class Sched:
    def __init__(self, plan=None, gran="line", faults=(), max_steps=2_000_000,
                 on_crash=None):
        plan = dict(plan or {"switches": []})
        self.recording = "seed" in plan
        self.rng = random.Random(plan.get("seed", 0))
        self.rate = float(plan.get("rate", 0.0))
        self.planned = {int(s): int(t) for s, t in plan.get("switches", [])}
        self.picks_in = list(plan.get("picks", []))
        self.gran = gran
        self.max_steps = max_steps
        self.faults = {}
        self.aims = []
        for f in faults:
            if f.get("in"):  # the n-th line run by the k-th call of a function, in that call itself
                self.aims.append({"f": f, "name": f["in"][0], "call": int(f["in"][1]), "line": int(f["in"][2]),
                                  "seen": 0, "frame": None, "last": None, "codes": {}})
            else:
                self.faults[(int(f["task"]), int(f["step"]))] = f
        self.fired = []
        self.on_crash = on_crash
        self.tasks = []
        self.by_ident = {}
        self.current = None
        self.steps = 0
        self.now = 0.0
        self.switches = []
        self.picks = []
        self.trail = hashlib.sha256()
        self.n_switch = 0
        self.failure = None
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.live = 0
        self._next_switch = None
        self._draw_next()

    # ------------------------------------------------------------- decisions
    def _draw_next(self):
        if self.recording and self.rate > 0:
            self._next_switch = self.steps + 1 + int(self.rng.expovariate(self.rate))
        else:
            self._next_switch = None

    def plan_out(self):
        return {"switches": [list(s) for s in self.switches], "picks": list(self.picks)}

    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.state == "ready":
                out.append(t)
            elif t.state == "blocked" and t.pred():
                out.append(t)
            elif t.state == "sleep" and t.wake <= self.now:
                out.append(t)
        return out

    def _pick(self, cands):
        """Forced choice (current task blocked or finished)."""
        if len(cands) == 1:
            return cands[0]
        if self.recording:
            k = self.rng.randrange(len(cands))
        else:
            k = self.picks_in[len(self.picks)] if len(self.picks) < len(self.picks_in) else 0
            k = k % len(cands)
        self.picks.append(k)
        return cands[k]

    # ------------------------------------------------------------ trace hooks
    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        if self.gran == "opcode":
            frame.f_trace_opcodes = True
            return self._opcode
        return self._line

    def _line(self, frame, event, arg):
        if event == "line":
            self.step(frame)
        return self._line

    def _opcode(self, frame, event, arg):
        if event == "opcode":
            self.step(frame)
        return self._opcode

    def step(self, frame=None):
        me = self.current
        if _thread.get_ident() not in self.by_ident:
            return
        self.steps += 1
        me.tstep += 1
        if self.failure is not None:
            raise SimAbort()
        if self.steps > self.max_steps:
            self._fail(StepBudget(f"no completion within {self.max_steps} steps"))
            raise SimAbort()
        if self.aims and frame is not None:
            self._aim(me, frame)
        if self.faults:
            f = self.faults.pop((me.id, me.tstep), None)
            if f is not None and frame is not None and not raisable(frame, self.gran == "opcode"):
                self.faults.setdefault((me.id, me.tstep + 1), f)
                f = None
            if f is not None:
                where = None
                if frame is not None:
                    where = f"{os.path.relpath(frame.f_code.co_filename, SRC)}:{frame.f_code.co_name}"
                self.fired.append((f["kind"], where))
                self.trail.update(f"F{f['kind']}{me.id}:{me.tstep}".encode())
                if f["kind"] == "crash" and self.on_crash:
                    self.on_crash()
                raise FAULT_EXC[f["kind"]]()
        if self.recording:
            if self._next_switch is None or self.steps < self._next_switch:
                return
            self._draw_next()
            others = [t for t in self._runnable() if t is not me]
            if not others:
                return
            to = others[self.rng.randrange(len(others))]
        else:
            tid = self.planned.get(self.steps)
            if tid is None or tid >= len(self.tasks):
                return
            to = self.tasks[tid]
            if to is me or to not in self._runnable():
                return
        self.switches.append((self.steps, to.id))
        if frame is not None:
            self.trail.update(
                f"S{me.id}>{to.id}@{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}".encode()
            )
        self._hand_over(me, to)

    def _aim(self, me, frame):
        for a in list(self.aims):
            if int(a["f"]["task"]) != me.id:
                continue
            if isinstance(a["name"], int):  # the i-th function the task comes to
                if a["codes"].setdefault(frame.f_code, len(a["codes"])) != a["name"]:
                    continue
            elif a["name"] != frame.f_code.co_name:
                continue
            if a["frame"] is None:
                if a["last"] is frame:
                    continue
                a["last"] = frame
                if a["seen"] < a["call"]:
                    a["seen"] += 1
                    continue
                a["frame"] = frame
            if a["frame"] is frame:
                if a["line"] == 0:
                    self.aims.remove(a)
                    self.faults.setdefault((me.id, me.tstep), a["f"])
                a["line"] -= 1

    # --------------------------------------------------------------- switching
    def _hand_over(self, me, to):
        self.n_switch += 1
        if to.state != "ready":
            to.state, to.pred = "ready", None
        self.current = to
        to.baton.release()
        me.baton.acquire()
        if self.failure is not None:
            raise SimAbort()

    def _choose_next(self):
        cands = self._runnable()
        if not cands:
            sleepers = [t for t in self.tasks if t.state == "sleep"]
            if sleepers:
                self.now = min(t.wake for t in sleepers)
                cands = self._runnable()
        if not cands:
            return None
        return self._pick(cands)

    def block(self, pred):
        me = self.current
        if pred():
            return
        me.state, me.pred = "blocked", pred
        self._suspend(me)

    def sleep(self, dt):
        me = self.current
        self.steps += 1
        if self.steps > self.max_steps:
            self._fail(StepBudget(f"no completion within {self.max_steps} steps"))
            raise SimAbort()
        me.state, me.wake = "sleep", self.now + max(float(dt), 1e-9)
        self._suspend(me)

    def _suspend(self, me):
        to = self._choose_next()
        if to is None:
            waiting = [(t.name, t.state) for t in self.tasks if t.state != "done"]
            self._fail(Deadlock(f"every task is blocked: {waiting}"))
            raise SimAbort()
        if to is me:
            me.state, me.pred = "ready", None
            return
        self._hand_over(me, to)

    def _fail(self, exc):
        if self.failure is None:
            self.failure = exc

    # ------------------------------------------------------------------ tasks
    def spawn(self, fn, name=None):
        t = Task(len(self.tasks), name or f"task{len(self.tasks)}", fn)
        self.tasks.append(t)
        self.live += 1
        _thread.start_new_thread(self._main, (t,))
        return t

    def _main(self, t):
        t.baton.acquire()
        self.by_ident[_thread.get_ident()] = t
        try:
            if self.failure is None:
                sys.settrace(self.tracer)
                t.result = t.fn()
        except SimAbort:
            pass
        except BaseException as e:  # noqa: BLE001 - handed to the owner
            t.exc = e
        finally:
            sys.settrace(None)
            t.state = "done"
            self.live -= 1
            self.by_ident.pop(_thread.get_ident(), None)
            if self.live == 0:
                self.done.release()
            elif self.failure is not None:
                self._abort_next()
            else:
                nxt = self._choose_next()
                if nxt is None:
                    self._fail(Deadlock("every remaining task is blocked: " + str(
                        [(q.name, q.state) for q in self.tasks if q.state != "done"])))
                    self._abort_next()
                else:
                    if nxt.state != "ready":
                        nxt.state, nxt.pred = "ready", None
                    self.current = nxt
                    nxt.baton.release()

    def _abort_next(self):
        for q in self.tasks:
            if q.state != "done":
                q.state = "ready"
                self.current = q
                q.baton.release()
                return

    def retrace(self):
        """Re-arm the hook (CPython drops it when it raised a planned fault)."""
        sys.settrace(self.tracer)

    def run(self, fns):
        """fns: list of callables or (name, callable); returns the tasks."""
        global _active
        prev, _active = _active, self
        try:
            for f in fns:
                name, fn = f if isinstance(f, tuple) else (None, f)
                self.spawn(fn, name)
            first = self._pick(list(self.tasks))
            self.current = first
            first.baton.release()
            self.done.acquire()
        finally:
            _active = prev
        if self.failure is not None:
            raise self.failure
        return self.tasks


_back = {}


def raisable(frame, opcode=False):
    """Whether an exception raised by the trace function here meets the handlers around it.

    CPython 3.12 looks past them when the event comes from a jump back within one line (a comprehension, a
    loop written on one line): `finally` and `with` would be skipped, which no real exception does.
    """
    code = frame.f_code
    if code not in _back:
        at, jumps, lines = set(), set(), {}
        for i in dis.get_instructions(code):
            lines[i.offset] = i.positions.lineno if i.positions else None
        for i in dis.get_instructions(code):
            if i.opname.startswith("JUMP_BACKWARD"):
                jumps.add(i.offset)
                if lines.get(i.argval) == lines[i.offset]:
                    at.add(i.argval)
        _back[code] = at, jumps
    at, jumps = _back[code]
    return frame.f_lasti not in (jumps if opcode else at)


class Lines:
    """Counts library lines in the calling thread and acts at one of them.

    For work that has to stay in the main thread (gmsh installs signal handlers).
    """

    def __init__(self, at=None, act=None, place=None):
        """`at`: a line counted over everything; `place`: (which function, in the order they are
        first entered, which call of it, which line of that call)."""
        self.at, self.act, self.steps, self.where = at, act, 0, None
        self.aim(place)

    def aim(self, place):
        """From here on the functions are counted anew."""
        self.place, self.seen, self.calls, self.frame, self.left = place, {}, 0, None, 0

    def _call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        if self.place is not None and self.where is None and self.frame is None:
            code = frame.f_code
            if code not in self.seen:
                self.seen[code] = len(self.seen)
            if self.seen[code] == self.place[0]:
                self.calls += 1
                if self.calls == self.place[1]:
                    self.frame, self.left = frame, self.place[2]
        return self._line

    def _line(self, frame, event, arg):
        if event == "line":
            self.steps += 1
            if frame is self.frame and self.where is None:
                self.left -= 1
                if self.left <= 0 and raisable(frame):
                    return self._hit(frame)
            if self.at is not None and self.steps >= self.at and self.where is None and raisable(frame):
                return self._hit(frame)
        elif event == "return" and frame is self.frame and self.where is None:
            # it had fewer lines: the next call will do
            self.frame, self.place = None, (self.place[0], self.calls + 1, 1)
        return self._line

    def _hit(self, frame):
        self.where = f"{os.path.relpath(frame.f_code.co_filename, SRC)}:{frame.f_code.co_name}"
        self.act()
        return self._line

    def run(self, fn):
        old = sys.gettrace()
        sys.settrace(self._call)
        try:
            return fn()
        finally:
            sys.settrace(old)


def in_sim():
    s = _active
    if s is None or _thread.get_ident() not in s.by_ident:
        return None
    return s


def untraced(fn, *a, **k):
    """Run harness code that calls into the library without scheduling it."""
    old = sys.gettrace()
    sys.settrace(None)
    try:
        return fn(*a, **k)
    finally:
        sys.settrace(old)


# --------------------------------------------------------------- sim primitives
class SimLock:
    """Lock / RLock whose waiters are parked in the scheduler."""

    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = in_sim()
        if self._re and self._owner == me:
            self._n += 1
            return True
        if self._owner is not None:
            if not blocking:
                return False
            if s is None:
                raise RuntimeError("simulated lock contended outside a simulation")
            while self._owner is not None:
                s.block(lambda: self._owner is None)
        self._owner, self._n = me, 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimFuture:
    def __init__(self):
        self._done, self._res, self._exc, self._cbs = False, None, None, []

    def _set(self, res, exc):
        self._res, self._exc, self._done = res, exc, True
        for cb in self._cbs:
            cb(self)

    def add_done_callback(self, cb):
        cb(self) if self._done else self._cbs.append(cb)

    def done(self):
        return self._done

    def cancel(self):
        return False

    def cancelled(self):
        return False

    def running(self):
        return not self._done

    def _wait(self):
        if not self._done:
            in_sim().block(lambda: self._done)

    def result(self, timeout=None):
        self._wait()
        if self._exc is not None:
            raise self._exc
        return self._res

    def exception(self, timeout=None):
        self._wait()
        return self._exc

    # multiprocessing.pool.AsyncResult
    def get(self, timeout=None):
        return self.result()

    def wait(self, timeout=None):
        self._wait()

    def ready(self):
        return self._done

    def successful(self):
        return self._done and self._exc is None


class SimPool:
    """A FIFO pool of simulated workers (stands in for ThreadPool/executors)."""

    def __init__(self, n=None, *a, **k):
        self.s = in_sim()
        n = int(n or 4)
        self.q, self.closed, self.busy = [], False, 0
        self.workers = [self.s.spawn(self._work, f"worker{i}") for i in range(n)]

    def _work(self):
        while True:
            self.s.block(lambda: self.q or self.closed)
            if not self.q:
                if self.closed:
                    return
                continue
            fut, fn, a, k, cb, ecb = self.q.pop(0)
            self.busy += 1
            try:
                r = fn(*a, **k)
            except SimAbort:
                raise
            except BaseException as e:  # noqa: BLE001
                self.busy -= 1
                sys.settrace(self.s.tracer)
                fut._set(None, e)
                if ecb:
                    ecb(e)
            else:
                self.busy -= 1
                fut._set(r, None)
                if cb:
                    cb(r)

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        f = SimFuture()
        self.q.append((f, fn, tuple(args), dict(kwds or {}), callback, error_callback))
        return f

    def submit(self, fn, *a, **k):
        return self.apply_async(fn, a, k)

    def map(self, fn, *its, timeout=None, chunksize=1):
        futs = [self.submit(fn, *a) for a in zip(*its)]

        def gen():
            for f in futs:
                yield f.result()

        return gen()

    def close(self):
        self.closed = True

    def terminate(self):
        self.q.clear()
        self.closed = True
        self.join()

    def join(self):
        s = in_sim()
        if s is not None and s.failure is None:
            s.block(lambda: all(w.state == "done" for w in self.workers))

    def shutdown(self, wait=True, cancel_futures=False):
        if cancel_futures:
            self.q.clear()
        self.closed = True
        if wait:
            self.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


class SimThread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._t, self._a, self._k = target, args, kwargs or {}
        self.name, self.daemon, self._task = name, daemon, None

    def run(self):
        if self._t:
            self._t(*self._a, **self._k)

    def start(self):
        self._task = in_sim().spawn(self.run, self.name)

    def join(self, timeout=None):
        in_sim().block(lambda: self._task.state == "done")

    def is_alive(self):
        return self._task is not None and self._task.state != "done"


# --------------------------------------------------------------- clock and cpu
class World:
    """Environment the library can observe: clock, cpu count."""

    cpu = 4
    clock0 = 1_700_000_000.0
    clock_faults = ()
    clock_reads = 0
    jumps = 0.0
    on = False


world = World()


def _sim_time():
    world.clock_reads += 1
    for n, dt in world.clock_faults:
        if n == world.clock_reads:
            world.jumps += dt
    s = _active
    base = s.now + s.steps * 1e-4 if s is not None else world.clock_reads * 1e-3
    return world.clock0 + base + world.jumps


_real = {}


def install():
    """Put the seams in place.  Must run before the library is imported."""
    import concurrent.futures as cf
    import multiprocessing
    import time

    if _real:
        return
    for n in ("time", "perf_counter", "monotonic", "process_time", "sleep",
              "time_ns", "perf_counter_ns", "monotonic_ns"):
        _real[n] = getattr(time, n)

    def clock(name, scale=1):
        real = _real[name]

        def f():
            if not world.on:
                return real()
            v = _sim_time()
            return int(v * scale) if scale != 1 else v

        return f

    for n in ("time", "perf_counter", "monotonic", "process_time"):
        setattr(time, n, clock(n))
    for n in ("time_ns", "perf_counter_ns", "monotonic_ns"):
        setattr(time, n, clock(n, 10**9))

    def sleep(dt):
        s = in_sim()
        if s is not None:
            return s.sleep(dt)
        if world.on:
            world.jumps += dt
            return None
        return _real["sleep"](dt)

    time.sleep = sleep

    def _from_lib(depth=2):
        f = sys._getframe(depth)
        for _ in range(3):
            if f is None:
                return False
            fn = f.f_code.co_filename
            if fn.startswith(SRC):
                return True
            if f"{os.sep}joblib{os.sep}" in fn:
                return f"{os.sep}externals{os.sep}" not in fn
            f = f.f_back
        return False

    threading.Lock = lambda: SimLock() if _from_lib() else _real_lock()
    threading.RLock = lambda *a: SimLock(True) if _from_lib() else _real_rlock(*a)

    class Thread(_real_thread_cls):
        def __new__(cls, *a, **k):
            if cls is Thread and in_sim() is not None and _from_lib():
                return SimThread(*a, **k)
            return super().__new__(cls)

    Thread.__name__ = "Thread"
    threading.Thread = Thread

    real_tpe = cf.ThreadPoolExecutor

    class ThreadPoolExecutor(real_tpe):
        def __new__(cls, max_workers=None, *a, **k):
            if in_sim() is not None:
                return SimPool(max_workers or world.cpu)
            return super().__new__(cls)

    cf.ThreadPoolExecutor = ThreadPoolExecutor
    real_ac, real_wait = cf.as_completed, cf.wait

    def as_completed(fs, timeout=None):
        fs = list(fs)
        if not any(isinstance(f, SimFuture) for f in fs):
            yield from real_ac(fs, timeout)
            return
        todo = list(fs)
        while todo:
            in_sim().block(lambda: any(f.done() for f in todo))
            for f in [f for f in todo if f.done()]:
                todo.remove(f)
                yield f

    def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
        fs = list(fs)
        if not any(isinstance(f, SimFuture) for f in fs):
            return real_wait(fs, timeout, return_when)
        for f in fs:
            f._wait()
        return types.SimpleNamespace(done=set(fs), not_done=set())

    cf.as_completed, cf.wait = as_completed, wait

    real_cpu = multiprocessing.cpu_count
    real_os_cpu = os.cpu_count
    multiprocessing.cpu_count = lambda: world.cpu if world.on else real_cpu()
    os.cpu_count = lambda: world.cpu if world.on else real_os_cpu()

    import multiprocessing.pool as mpool

    real_tp = mpool.ThreadPool

    class ThreadPool(real_tp):
        def __new__(cls, n=None, *a, **k):
            if in_sim() is not None:
                return SimPool(n or world.cpu)
            return super().__new__(cls)

    mpool.ThreadPool = ThreadPool
    import joblib.parallel as jp
    from joblib import _parallel_backends as jb

    class SimJoblibBackend(jb.ThreadingBackend):
        def _get_pool(self):
            if self._pool is None:
                if in_sim() is None:
                    return super()._get_pool()
                self._pool = SimPool(self._n_jobs)
            return self._pool

    # both names joblib uses for its thread pool
    jp.BACKENDS["threading"] = SimJoblibBackend
    jp.ThreadingBackend = SimJoblibBackend

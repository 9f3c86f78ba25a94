"""Deterministic simulator of several OS processes (a stand-in for the `multiprocessing` module) in virtual time.

Every simulated process (and the program itself, the "parent") is a task: a real thread that runs only while it holds
the baton. Every operation on a process, event, queue, lock or clock is a scheduling point: it takes a virtual
duration drawn from the run's chooser, and the task whose next operation is due first continues. So the chooser alone
decides the interleaving, all delays and where the injected faults strike.

Modelled after CPython's multiprocessing on POSIX (fork):
  Queue   - per-process buffer flushed by a feeder after a drawn delay, pickled at that time; one shared pipe, one
            reader lock; what a killed process had not flushed is lost; a normally ending process flushes first.
  Event   - set() wakes all waiters and waits until each has woken (as Condition.notify does), so it blocks for ever when a
            waiter was killed.
  Process - runs a copy of the object (fork); exit codes; daemon processes are terminated when the program exits.
"""
import _thread
import copy
import heapq
import itertools
import pickle
import sys
import threading
import time as _time
import traceback
import types

ACTIVE = None                     # the simulation in progress
_real = {k: getattr(_time, k) for k in ("sleep", "time", "perf_counter", "monotonic", "process_time", "time_ns",
                                        "perf_counter_ns", "monotonic_ns")}


PIPE_CAPACITY = 65536


class SimExit(BaseException):
    """Unwinds the threads of a finished simulation."""


class SimDeadlock(Exception):
    pass


class SimBudget(Exception):
    pass


_TABLES = {
    "plain": [1e-6],
    "tight": [1e-6, 1e-6, 2e-6, 3e-6, 5e-6, 8e-6, 1.2e-5, 2e-5],
    "mixed": [1e-6, 1e-6, 2e-6, 5e-6, 1e-5, 3e-5, 1e-4, 3e-4],
    "wild": [1e-6, 1e-6, 5e-6, 2e-5, 1e-4, 4e-4, 1.5e-3, 6e-3],
    "glacial": [1e-6, 1e-3, 1.0, 30.0, 150.0, 4000.0],
}


class Task:
    __slots__ = ("sim", "name", "lock", "state", "exc", "wake_value", "proc", "ops", "fn", "result", "error", "due",
                 "waiting_on", "last_alive_seen", "token", "killed", "pending_exc", "thread_done", "wait_list", "recent")

    def __init__(self, sim, name, fn, proc=None):
        self.sim, self.name, self.fn, self.proc = sim, name, fn, proc
        self.lock = _thread.allocate_lock(); self.lock.acquire()
        self.state = "new"; self.exc = None; self.wake_value = None; self.ops = 0
        self.result = None; self.error = None; self.waiting_on = None; self.last_alive_seen = {}
        self.token = 0; self.killed = False; self.pending_exc = None; self.thread_done = [1]; self.wait_list = None; self.recent = []


def _launch(sim, task):
    """Start the OS thread of a task. The thread signals its end (the last item of `box`) only after it dropped every
    reference to the simulation, so that nothing of a finished one is finalised beside the next one."""
    task.state = "running"
    task.thread_done = []
    _thread.start_new_thread(_thread_entry, ([sim, task, task.thread_done],))


def _thread_entry(box):
    done = box.pop()
    try:
        box[0]._thread_main(box[1])
    finally:
        del box[:]
        done.append(1)


class Sim:
    def __init__(self, chooser, profile="mixed", feeder="mixed", clock=None, max_steps=400_000, max_time=1e9, res=None):
        self.ch = chooser
        self.table = _TABLES[profile]
        self.feeder_table = _TABLES[feeder]
        self.now = 0.0
        self.steps = 0
        self.max_steps, self.max_time = max_steps, max_time
        self.heap = []
        self.seq = itertools.count()
        self.current = None
        self.tasks = []
        self.over = False
        self.over_reason = None
        self.done_lock = _thread.allocate_lock(); self.done_lock.acquire()
        self.procs = []
        self.pid = itertools.count(1001)
        self.clock = clock            # callable(sim) -> reported time offset/values
        self.faults = []              # list of Fault objects {"kind", "task", "op"/"t", ...}
        self.start_faults = {}        # nth start() -> exception
        self.starts = 0
        self.events_log = []
        self.res = res
        self.hash_on = res is not None
        self.main_queues = {}
        self.set_with_dead_waiter = None
        self.fired = {}
        self.busy = 0
        self.busy_budget = BUSY_BUDGET
        self.last_fault_time = 0.0
        self.stall_total = 0.0
        self.drag = 0.0               # shortest sleep of an overloaded machine

    # ------------------------------------------------------------------ bookkeeping
    def log(self, *items):
        if self.res is not None:
            self.res.note(*items)

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        self.last_fault_time = self.now
        if self.res is not None:
            self.res.count("fault:" + kind)

    # ------------------------------------------------------------------ scheduling core
    def push(self, t, what):
        heapq.heappush(self.heap, (t, next(self.seq), what))

    def _finish(self, reason):
        """End of the simulation (called by whoever holds the baton)."""
        if not self.over:
            self.over = True
            self.over_reason = reason
            self.final = [(t.name, t.state, t.waiting_on) for t in self.tasks]
            self.done_lock.release()

    def _next_task(self):
        """Pop events until a task is due; returns it or None when nothing remains."""
        while True:
            if not self.heap:
                return None
            t, _, what = heapq.heappop(self.heap)
            if t > self.now:
                self.now = t
            kind = what[0]
            if kind == "task":
                task, token = what[1], what[2]
                if task.token != token or task.state in ("dead", "done"):
                    continue          # stale wake-up
                return task
            elif kind == "call":
                what[1](*what[2:])
            if self.over:
                return None

    def _switch(self, me):
        """Give the baton to the next due task; returns when `me` is due again."""
        self.steps += 1
        if self.steps > self.max_steps:
            self._finish("steps")
            self._park(me)
        if self.now > self.max_time:
            self._finish("time")
            self._park(me)
        nxt = self._next_task()
        if nxt is None:
            self._finish("deadlock" if not self.over else self.over_reason)
            self._park(me)
        if nxt is not me:
            self.current = nxt
            if nxt.state == "new":
                _launch(self, nxt)
            else:
                nxt.lock.release()
            if me.state in ("dead", "done"):
                return
            self._park(me)

    def _park(self, me):
        if not (self.over and me.state == "unwinding"):
            me.lock.acquire()
        if self.over:
            me.state = "unwinding"
            raise SimExit()

    def _thread_main(self, task):
        try:
            if not self.over:
                task.result = task.fn()
        except SimExit:
            return
        except BaseException as e:  # noqa
            task.error = e
        if self.over:
            return
        try:
            self.task_finished(task)
        except SimExit:
            pass
        except BaseException:
            self.crash = traceback.format_exc()
            self._finish("simulator-crash")

    def task_finished(self, task):
        if task.proc is not None:
            task.proc._on_exit(task)
        if task.state != "dead":
            task.state = "done"
        if task is self.main:
            self._finish("main-done")
            return
        nxt = self._next_task()
        if nxt is None:
            if not self.over:
                self._finish("deadlock")
            return
        self.current = nxt
        if nxt.state == "new":
            _launch(self, nxt)
        else:
            nxt.lock.release()

    # ------------------------------------------------------------------ operations used by the shims
    def cost(self):
        return self.table[self.ch.pick(len(self.table))]

    def op(self, name, detail=""):
        """A scheduling point before the operation takes effect."""
        if self.over:
            raise SimExit()
        me = self.current
        me.ops += 1
        self.busy = 0
        me.recent.append(name)
        if len(me.recent) > 12:
            del me.recent[0]
        d = self.cost()
        if self.faults:
            d += self._faults_at(me, name)
        me.token += 1
        self.push(self.now + d, ("task", me, me.token))
        self._switch(me)
        self._deliver(me)
        if self.hash_on:
            self.res.note(f"{self.now:.7f}", me.name, name, detail)

    def after(self, name):
        """Faults that strike right after an operation took effect."""
        me = self.current
        if self.faults:
            for f in self.faults:
                if f.get("done") or f["where"] != "after" or f["task"] != me.name:
                    continue
                if f["op"] <= me.ops:
                    self._apply(f, me)
            self._deliver(me)

    def _deliver(self, me):
        if me.pending_exc is not None:
            e = me.pending_exc; me.pending_exc = None
            try:
                raise e
            finally:
                del e                 # no reference cycle exception -> frame -> exception

    def _faults_at(self, me, name):
        extra = 0.0
        for f in self.faults:
            if f.get("done") or f["task"] != me.name or f["where"] != "before":
                continue
            if f["op"] <= me.ops:
                r = self._apply(f, me)
                if r:
                    extra += r
        return extra

    def _apply(self, f, me):
        f["done"] = True
        k = f["kind"]
        self.fire(k)
        self.log("FAULT", k, me.name, me.ops)
        if k == "stall":
            self.stall_total += f["dur"]
            return f["dur"]
        if k == "interrupt":
            me.pending_exc = KeyboardInterrupt()
        elif k == "interrupt_group":
            for t in self.tasks:
                if t.state not in ("done", "dead", "exiting"):
                    self.interrupt_task(t, KeyboardInterrupt())
        elif k == "memory":
            me.pending_exc = MemoryError()
        elif k == "kill_self":
            if me.proc is not None:
                me.proc._kill(-9, "killed")
        elif k == "kill_worker":
            alive = [p for p in self.procs if p._task is not None and p._task.state not in ("done", "dead")]
            if alive:
                alive[f["n"] % len(alive)]._kill(-9, "killed")
        elif k == "kill_all":
            for p in list(self.procs):
                if p._task is not None and p._task.state not in ("done", "dead"):
                    p._kill(-9, "killed")
        if me.state == "dead":
            self._abandon(me)
        return 0.0

    def add_fault(self, f):
        """f: {"kind", "task", "where": before|after, "op"} or {"kind", "t": virtual time, "n": worker number}."""
        f = dict(f)
        if "t" in f:
            self.push(f["t"], ("call", self._timed_fault, f))
        else:
            self.faults.append(f)

    def _timed_fault(self, f):
        ps = [p for p in self.procs]
        if f["kind"] == "kill":
            if ps:
                p = ps[f["n"] % len(ps)]
                if p._task.state not in ("done", "dead") and p._task is not self.current:
                    self.fire("kill")
                    p._kill(-9, "killed")
        elif f["kind"] == "interrupt":
            t = self.main
            if t.state not in ("done", "dead"):
                self.fire("interrupt")
                self.interrupt_task(t, KeyboardInterrupt())
        elif f["kind"] == "interrupt_group":
            self.fire("interrupt_group")
            for t in self.tasks:
                if t.state not in ("done", "dead", "exiting"):
                    self.interrupt_task(t, KeyboardInterrupt())

    def _abandon(self, me):
        nxt = self._next_task()
        if nxt is None:
            self._finish("deadlock" if not self.over else self.over_reason)
        else:
            self.current = nxt
            if nxt.state == "new":
                _launch(self, nxt)
            else:
                nxt.lock.release()
        me.lock.acquire()
        raise SimExit()

    def interrupt_task(self, t, exc):
        t.pending_exc = exc
        if t.state == "waiting":
            self.wake(t, ("interrupted",))

    def wait(self, queue, timeout=None, name="wait"):
        """Block the current task in `queue` (a list); returns True if woken, False on timeout."""
        me = self.current
        me.token += 1
        me.state = "waiting"
        me.waiting_on = name
        me.wait_list = queue
        queue.append(me)
        if timeout is not None:
            self.push(self.now + (max(timeout, self.drag) if timeout > 0 else 0.0), ("task", me, me.token))
        me.wake_value = None
        try:
            self._switch(me)
        finally:
            if me in queue:
                queue.remove(me)
            if me.state == "waiting":
                me.state = "running"
            me.waiting_on = None
            me.wait_list = None
        self._deliver(me)
        return me.wake_value is not None

    def wake(self, t, value=("woken",)):
        if t.state == "dead":
            return
        t.wake_value = value
        t.token += 1
        self.push(self.now + self.cost(), ("task", t, t.token))

    def sleep(self, secs):
        if secs is not None and secs < 0:
            raise ValueError("sleep length must be non-negative")
        if self.over:
            raise SimExit()
        me = self.current
        me.ops += 1
        self.busy = 0
        me.recent.append("sleep")
        d = max(float(secs), self.drag) + self.cost()
        if self.faults:
            d += self._faults_at(me, "sleep")
        me.token += 1
        self.push(self.now + d, ("task", me, me.token))
        self._switch(me)
        self._deliver(me)
        self.after("sleep")

    def clock_read(self, which):
        if self.clock is None:
            return 1_000_000.0 + self.now
        return self.clock(self, which)

    # ------------------------------------------------------------------ run
    def run(self, fn):
        """Run fn as the parent program; returns the reason the simulation ended."""
        global ACTIVE
        self.main = Task(self, "P", fn)
        self.tasks.append(self.main)
        self.push(0.0, ("task", self.main, 0))
        prev, ACTIVE = ACTIVE, self
        if sys.monitoring.get_tool(_BUSY_TOOL) is not None:
            sys.monitoring.restart_events()
        try:
            t = self._next_task()
            self.current = t
            _launch(self, t)
            self.done_lock.acquire()
        finally:
            self._unwind()
            ACTIVE = prev
        return self.over_reason

    def _unwind(self):
        self.over = True
        for t in self.tasks:
            n = 0
            while not t.thread_done:
                try:
                    t.lock.release()
                except RuntimeError:
                    pass
                n += 1
                _real["sleep"](0 if n < 50 else 0.001)
                if n > 60000:
                    raise RuntimeError(f"simulated task {t.name} does not unwind: {t.state} {t.waiting_on} {t.error!r} {self.over_reason} {getattr(self,'crash',None)}")


_BUSY_TOOL = 4
BUSY_BUDGET = 400_000


def install_busy_guard(is_subject):
    """Counts loop iterations of the code under test between two simulator operations: a loop that never reaches a
    scheduling point would otherwise hang the simulation."""
    mon = sys.monitoring
    if mon.get_tool(_BUSY_TOOL) is not None:
        return
    mon.use_tool_id(_BUSY_TOOL, "zsim-busy")

    def on_jump(code, off, dest):
        if not is_subject(code):
            return mon.DISABLE
        s = ACTIVE
        if s is None:
            return mon.DISABLE
        s.busy += 1
        if s.busy > s.busy_budget and not s.over:
            s._finish("busy-loop")
            s._park(s.current)
        elif s.over and threading.get_ident() != _main_ident:
            raise SimExit()
    mon.register_callback(_BUSY_TOOL, mon.events.JUMP, on_jump)
    mon.set_events(_BUSY_TOOL, mon.events.JUMP)


# ------------------------------------------------------------------------------------------------ time dispatchers
CLOCK = None           # clock seen by code that runs outside of the process simulator


class SimClock:
    """Clock of a badly behaving machine: profile is one of calm, frozen, fast, jumps, backwards, nan."""

    def __init__(self, profile, ch, start=1_000_000.0):
        self.profile, self.ch, self.now, self.reads = profile, ch, start, 0

    def read(self, name):
        self.reads += 1
        p = self.profile
        if p == "calm":
            self.now += 1e-4
        elif p == "fast":
            self.now += 3600.0
        elif p == "jumps":
            self.now += [0.0, 1e-6, 1.0, 1e5, 1e9][self.ch.pick(5)]
        elif p == "backwards":
            if name in ("time", "time_ns"):
                self.now += [1e-3, -1.0, -1e4, 2.0][self.ch.pick(4)]
            else:
                self.now += 1e-3
        elif p == "allback":
            self.now += [1e-3, -1.0, -1e4, 2.0][self.ch.pick(4)]
        elif p == "slow":
            self.now += 1e-9
        return self.now

    def sleep(self, secs):
        if self.profile != "frozen":
            self.now += secs


class use_clock:
    def __init__(self, clock):
        self.clock = clock

    def __enter__(self):
        global CLOCK
        self.old, CLOCK = CLOCK, self.clock
        return self.clock

    def __exit__(self, *a):
        global CLOCK
        CLOCK = self.old


def install_time_dispatch():
    if getattr(_time, "_zsim", False):
        return
    _time._zsim = True

    def sleep(secs):
        s = ACTIVE
        if s is None and CLOCK is not None:
            CLOCK.sleep(secs)
            return None
        if s is None or threading.get_ident() == _main_ident:
            return None               # outside of a simulation (late __del__ calls): do not really sleep
        s.sleep(secs)

    def mk(name, scale):
        real = _real[name]

        def f():
            s = ACTIVE
            if s is None and CLOCK is not None:
                v = CLOCK.read(name)
                return int(v * 1e9) if scale else v
            if s is None or threading.get_ident() == _main_ident:
                return real()
            if s.over:
                raise SimExit()
            v = s.clock_read(name)
            return int(v * 1e9) if scale else v
        f.__name__ = name
        return f
    _time.sleep = sleep
    for n in ("time", "perf_counter", "monotonic", "process_time"):
        setattr(_time, n, mk(n, False))
    for n in ("time_ns", "perf_counter_ns", "monotonic_ns"):
        setattr(_time, n, mk(n, True))


_main_ident = threading.get_ident()


def after_fork():
    global _main_ident
    _main_ident = threading.get_ident()


# ------------------------------------------------------------------------------------------------ shims
class Empty(Exception):
    pass


def _std_exc():
    import queue
    return queue.Empty, queue.Full


class SEvent:
    def __init__(self, *a, **k):
        self._flag = False
        self._waiters = []
        self._dead = []           # waiters killed while waiting: set() never returns
        self._locked_by_setter = None
        self._name = "E"
        s = ACTIVE
        self._sim = s
        if s is not None:
            s.op("Event()")
            s._ev = getattr(s, "_ev", 0) + 1
            self._name = f"E{s._ev}"

    def is_set(self):
        s = ACTIVE
        if s is None or s is not self._sim:
            return self._flag
        s.op("is_set", self._name)
        self._gate(s)
        v = self._flag
        s.after("is_set")
        return v

    isSet = is_set

    def _gate(self, s):
        # an event whose set() is stuck keeps its lock: everybody else blocks too
        if self._locked_by_setter is not None:
            s.current.waiting_on = "event-lock"
            s.wait([], None, "event-lock")

    def set(self):
        s = ACTIVE
        if s is None or s is not self._sim:
            self._flag = True
            return
        s.op("set", self._name)
        self._gate(s)
        self._flag = True
        for t in list(self._waiters):
            s.wake(t)
        self._waiters.clear()
        if self._dead:
            self._locked_by_setter = s.current
            s.set_with_dead_waiter = (s.current, self._dead[0], s.now)
            s.wait([], None, "event-set-dead-waiter")
        s.after("set")

    def clear(self):
        s = ACTIVE
        if s is None or s is not self._sim:
            self._flag = False
            return
        s.op("clear", self._name)
        self._gate(s)
        self._flag = False
        s.after("clear")

    def wait(self, timeout=None):
        s = ACTIVE
        if s is None or s is not self._sim:
            return self._flag
        s.op("wait", self._name)
        self._gate(s)
        if not self._flag:
            me = s.current
            if me.proc is not None:
                me.proc._waiting_event = self
            try:
                s.wait(self._waiters, timeout, "event")
            finally:
                if me.proc is not None:
                    me.proc._waiting_event = None
        v = self._flag
        s.after("wait")
        return v


class _Pipe1:
    """One-directional byte pipe between processes: list of (due, payload)."""

    def __init__(self):
        self.items = []
        self.readers = []


class SQueue:
    def __init__(self, maxsize=0, *a, **k):
        self._items = []          # delivered pickles
        self._rlock = None        # task holding the reader lock
        self._rwait = []
        self._readers = []
        self._buf = {}            # task -> list of objects not flushed
        self._last_due = {}
        self._maxsize = maxsize or 0
        self._unread = 0
        self._bytes = 0
        self._stalled, self._drain_waiters, self._cancel = [], [], set()
        s = ACTIVE
        self._sim = s
        self._closed = False
        if s is not None:
            s.op("Queue()")

    # producer side -------------------------------------------------------------
    def put(self, obj, block=True, timeout=None):
        s = ACTIVE
        if s is None or s is not self._sim:
            return
        if self._closed:
            raise ValueError("Queue is closed")
        s.op("put")
        if self._maxsize and self._unread >= self._maxsize:
            Empty_, Full = _std_exc()
            if not block:
                raise Full
            end = None if timeout is None else s.now + timeout
            while self._unread >= self._maxsize:
                if end is not None and s.now >= end:
                    raise Full
                s.sleep(0.001)
        me = s.current
        self._unread += 1
        self._buf.setdefault(me, []).append(obj)
        d = s.feeder_table[s.ch.pick(len(s.feeder_table))] + getattr(s, "feeder_extra", 0.0)
        due = max(s.now + d, self._last_due.get(me, 0.0))
        self._last_due[me] = due
        s.push(due, ("call", self._flush_one, s, me))
        if me.proc is not None:
            me.proc._queues[self] = True
        else:
            s.main_queues[self] = True
        s.after("put")

    def put_nowait(self, obj):
        return self.put(obj, False)

    def _flush_one(self, s, task):
        buf = self._buf.get(task)
        if not buf:
            return
        if task.state == "dead":
            buf.clear()
            return
        if self._bytes >= PIPE_CAPACITY:              # the feeder blocks until somebody reads
            if task not in self._stalled:
                self._stalled.append(task)
            return
        obj = buf.pop(0)
        try:
            data = pickle.dumps(obj)
        except Exception:
            self._unread -= 1
            if s.res is not None:
                s.res.count("unpicklable-dropped")
            return
        self._items.append(data)
        self._bytes += len(data)
        s.log(f"{s.now:.7f}", "deliver", task.name, len(data))
        if self._readers:
            s.wake(self._readers[0])

    def _flush_all(self, s, task):
        """End of a process: everything still buffered is written out first (may block on a full pipe)."""
        if task in self._cancel:
            self._buf.get(task, []).clear()
            return
        while self._buf.get(task) or (self._bytes > PIPE_CAPACITY and self._last_due.get(task) is not None):
            if self._bytes < PIPE_CAPACITY and self._buf.get(task):
                self._flush_one(s, task)
            else:
                if s.res is not None:
                    s.res.count("exit-blocked-on-full-pipe")
                s.wait(self._drain_waiters, None, "exit-queue-flush")

    def _consumed(self, s, n):
        self._bytes -= n
        while self._stalled and self._bytes < PIPE_CAPACITY:
            t = self._stalled.pop(0)
            while self._buf.get(t) and self._bytes < PIPE_CAPACITY:
                self._flush_one(s, t)
            if self._buf.get(t) and t not in self._stalled:
                self._stalled.append(t)
        if self._bytes <= PIPE_CAPACITY:
            for t in list(self._drain_waiters):
                s.wake(t)

    # consumer side -------------------------------------------------------------
    def empty(self):
        s = ACTIVE
        if s is None or s is not self._sim:
            return not self._items
        s.op("empty")
        v = not self._items
        s.after("empty")
        return v

    def qsize(self):
        s = ACTIVE
        if s is None or s is not self._sim:
            return self._unread
        s.op("qsize")
        return self._unread

    def full(self):
        return bool(self._maxsize) and self._unread >= self._maxsize

    def get(self, block=True, timeout=None):
        s = ACTIVE
        Empty_, _ = _std_exc()
        if s is None or s is not self._sim:
            raise Empty_
        s.op("get")
        me = s.current
        end = None if timeout is None else s.now + timeout
        # reader lock
        while self._rlock is not None and self._rlock is not me:
            if not block:
                raise Empty_
            left = None if end is None else end - s.now
            if left is not None and left <= 0:
                raise Empty_
            s.wait(self._rwait, left, "queue-rlock")
            if end is not None and s.now >= end and self._rlock is not None:
                raise Empty_
        self._rlock = me
        if me.proc is not None:
            me.proc._rlocks[self] = True
        try:
            while not self._items:
                if not block:
                    raise Empty_
                left = None if end is None else end - s.now
                if left is not None and left <= 0:
                    raise Empty_
                s.wait(self._readers, left, "queue-get")
            data = self._items.pop(0)
            self._consumed(s, len(data))
        finally:
            if not s.over:
                self._release_rlock(s, me)
        self._unread -= 1
        obj = pickle.loads(data)
        s.after("get")
        return obj

    def get_nowait(self):
        return self.get(False)

    def _release_rlock(self, s, me):
        if self._rlock is me:
            self._rlock = None
            if me.proc is not None:
                me.proc._rlocks.pop(self, None)
            if self._rwait:
                s.wake(self._rwait.pop(0))

    def close(self):
        s = ACTIVE
        if s is not None and s is self._sim:
            s.op("queue.close")

    def join_thread(self):
        s = ACTIVE
        if s is not None and s is self._sim:
            s.op("queue.join_thread")
            while self._buf.get(s.current):
                s.sleep(1e-4)

    def cancel_join_thread(self):
        s = ACTIVE
        if s is not None and s is self._sim:
            self._cancel.add(s.current)

    def put_done(self):
        pass


class SSimpleQueue(SQueue):
    def get(self):
        return SQueue.get(self, True, None)

    def put(self, obj):
        return SQueue.put(self, obj)


class SJoinableQueue(SQueue):
    def task_done(self):
        pass

    def join(self):
        s = ACTIVE
        while s is not None and self._unread > 0:
            s.sleep(1e-3)


class SConnection:
    def __init__(self, inq, outq):
        self._in, self._out = inq, outq
        self.closed = False

    def send(self, obj):
        if self._out is None:
            raise OSError("connection is read-only")
        self._out.put(obj)

    def recv(self):
        if self._in is None:
            raise OSError("connection is write-only")
        return self._in.get()

    def poll(self, timeout=0.0):
        s = ACTIVE
        if s is None:
            return False
        s.op("poll")
        end = None if timeout is None else s.now + timeout
        while not self._in._items:
            left = None if end is None else end - s.now
            if left is not None and left <= 0:
                return False
            s.wait(self._in._readers, left, "conn-poll")
        return True

    def close(self):
        self.closed = True

    def fileno(self):
        return -1


def SPipe(duplex=True):
    a, b = SQueue(), SQueue()
    if duplex:
        return SConnection(a, b), SConnection(b, a)
    return SConnection(a, None), SConnection(None, a)


class SLock:
    _rec = False

    def __init__(self, *a, **k):
        self._owner = None
        self._n = 0
        self._waiters = []
        self._sim = ACTIVE

    def acquire(self, block=True, timeout=None):
        s = ACTIVE
        if s is None or s is not self._sim:
            return True
        s.op("lock.acquire")
        me = s.current
        if self._rec and self._owner is me:
            self._n += 1
            return True
        end = None if timeout is None else s.now + timeout
        while self._owner is not None:
            if not block:
                return False
            left = None if end is None else end - s.now
            if left is not None and left <= 0:
                return False
            s.wait(self._waiters, left, "lock")
        self._owner = me
        self._n = 1
        return True

    def release(self):
        s = ACTIVE
        if s is None or s is not self._sim:
            return
        if s.over:
            return
        self._n -= 1
        if self._n <= 0:
            self._owner = None
            if self._waiters:
                s.wake(self._waiters.pop(0))
        s.op("lock.release")

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SRLock(SLock):
    _rec = True


class SSemaphore:
    def __init__(self, value=1, *a, **k):
        self._v = value
        self._waiters = []
        self._sim = ACTIVE

    def acquire(self, block=True, timeout=None):
        s = ACTIVE
        if s is None or s is not self._sim:
            return True
        s.op("sem.acquire")
        end = None if timeout is None else s.now + timeout
        while self._v <= 0:
            if not block:
                return False
            left = None if end is None else end - s.now
            if left is not None and left <= 0:
                return False
            s.wait(self._waiters, left, "sem")
        self._v -= 1
        return True

    def release(self):
        s = ACTIVE
        if s is None or s is not self._sim or s.over:
            return
        self._v += 1
        if self._waiters:
            s.wake(self._waiters.pop(0))
        s.op("sem.release")

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SCondition:
    def __init__(self, lock=None):
        self._lock = lock or SRLock()
        self._waiters = []
        self.acquire = self._lock.acquire
        self.release = self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        s = ACTIVE
        if s is None:
            return True
        self._lock.release()
        r = s.wait(self._waiters, timeout, "cond")
        self._lock.acquire()
        return r

    def wait_for(self, predicate, timeout=None):
        while not predicate():
            if not self.wait(timeout) and timeout is not None:
                return predicate()
        return True

    def notify(self, n=1):
        s = ACTIVE
        for _ in range(n):
            if self._waiters and s is not None:
                s.wake(self._waiters.pop(0))

    def notify_all(self):
        self.notify(len(self._waiters))


class _Value:
    def __init__(self, typecode=None, *args, lock=True):
        self.value = args[0] if args else 0
        self._l = SRLock()

    def get_lock(self):
        return self._l


class SProcess:
    _counter = itertools.count(1)

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        self._name = name or "Process"
        self._daemon = bool(daemon) if daemon is not None else False
        self._task = None
        self._exitcode = None
        self._pid = None
        self._joiners = []
        self._queues = {}
        self._rlocks = {}
        self._waiting_event = None
        self._sim = ACTIVE
        self._killed_at = None

    name = property(lambda self: self._name)

    @property
    def daemon(self):
        return self._daemon

    @daemon.setter
    def daemon(self, v):
        assert self._task is None, "process has already started"
        self._daemon = bool(v)

    @property
    def pid(self):
        return self._pid
    ident = pid

    @property
    def sentinel(self):
        return self

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = ACTIVE
        if s is None or s is not self._sim:
            raise AssertionError("simulated process started outside of its simulation")
        assert self._task is None, "cannot start a process twice"
        assert s.current.proc is None or not s.current.proc._daemon, "daemonic processes are not allowed to have children"
        s.op("start")
        n = s.starts
        s.starts += 1
        exc = s.start_faults.get(n)
        if exc is not None:
            s.fire("start-refused")
            raise OSError(11, "Resource temporarily unavailable (simulated fork failure)")
        child = copy.copy(self)                       # fork: the child works on its own copy of the object
        child._queues = self._queues; child._rlocks = self._rlocks
        self._pid = next(s.pid)
        t = Task(s, f"W{n}", None, proc=self)

        def body():
            child.run()
        t.fn = body
        self._task = t
        child._task = t
        s.tasks.append(t)
        s.procs.append(self)
        delay = s.table[s.ch.pick(len(s.table))] * 10 + getattr(s, "start_delay", 0.0)
        s.push(s.now + delay, ("task", t, 0))
        s.after("start")

    # -- called by the simulator
    def _on_exit(self, task):
        s = task.sim
        if task.state == "dead":
            return
        e = task.error
        if e is None:
            code = 0
        elif isinstance(e, SystemExit):
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        else:
            code = 1
            s.log("worker-exception", task.name, type(e).__name__)
            if s.res is not None:
                s.res.count("worker-ended-by-exception")
        task.state = "exiting"
        for q in list(self._queues):
            q._flush_all(s, task)                     # a process that ends normally waits for its queue feeders
        for q in list(self._rlocks):
            q._release_rlock(s, task)
        self._set_exit(s, code)

    def _set_exit(self, s, code):
        self._exitcode = code
        s.log(f"{s.now:.7f}", "exit", self._task.name, code)
        for t in list(self._joiners):
            s.wake(t)
        self._joiners.clear()

    def _kill(self, code, why):
        t = self._task
        s = t.sim
        if t.state in ("done", "dead"):
            return
        self._killed_by = why
        if self._waiting_event is not None:
            ev = self._waiting_event
            if t in ev._waiters:
                ev._waiters.remove(t)
                ev._dead.append(self)
        t.state = "dead"
        t.token += 1
        if t.wait_list is not None and t in t.wait_list:
            t.wait_list.remove(t)
        self._killed_at = s.now
        for q in list(self._queues):
            q._buf.get(t, []).clear()                 # unflushed data is lost
        for q in list(self._rlocks):
            if t in q._readers:
                q._readers.remove(t)
        self._set_exit(s, code)

    # -- API
    def is_alive(self):
        s = ACTIVE
        if s is None or s is not self._sim:
            return False
        if self._task is None:
            return False
        s.op("is_alive")
        v = self._exitcode is None
        if v:
            s.current.last_alive_seen[self] = (s.now, s.current.ops)
        s.after("is_alive")
        return v

    def join(self, timeout=None):
        s = ACTIVE
        if s is None or s is not self._sim:
            return
        assert self._task is not None, "can only join a started process"
        s.op("join")
        end = None if timeout is None else s.now + timeout
        while self._exitcode is None:
            left = None if end is None else end - s.now
            if left is not None and left <= 0:
                break
            s.wait(self._joiners, left, "join")
        s.after("join")

    def terminate(self):
        s = ACTIVE
        if s is None or s is not self._sim or self._task is None:
            return
        s.op("terminate")
        self._kill(-15, "terminated")

    def kill(self):
        s = ACTIVE
        if s is None or s is not self._sim or self._task is None:
            return
        s.op("kill")
        self._kill(-9, "kill()")

    @property
    def exitcode(self):
        s = ACTIVE
        if s is not None and s is self._sim and self._task is not None:
            s.op("exitcode")
        return self._exitcode

    def close(self):
        pass


def make_module(cpu_count_fn):
    """The stand-in for the `multiprocessing` module."""
    m = types.ModuleType("multiprocessing")
    m.__path__ = []
    Empty_, Full = _std_exc()

    def get_context(method=None):
        return m

    def active_children():
        s = ACTIVE
        return [] if s is None else [p for p in s.procs if p._exitcode is None]

    class _Cur(SProcess):
        pass

    def current_process():
        s = ACTIVE
        if s is not None and s.current is not None and s.current.proc is not None:
            return s.current.proc
        p = types.SimpleNamespace(name="MainProcess", daemon=False, pid=1, ident=1)
        return p
    m.Process = SProcess; m.Event = SEvent; m.Queue = SQueue; m.SimpleQueue = SSimpleQueue; m.JoinableQueue = SJoinableQueue
    m.Pipe = SPipe; m.Lock = SLock; m.RLock = SRLock; m.Semaphore = SSemaphore; m.BoundedSemaphore = SSemaphore
    m.Condition = SCondition; m.Value = _Value
    m.cpu_count = cpu_count_fn
    m.get_context = get_context; m.active_children = active_children; m.current_process = current_process
    m.parent_process = lambda: None
    m.get_start_method = lambda allow_none=False: "fork"
    m.set_start_method = lambda *a, **k: None
    m.get_all_start_methods = lambda: ["fork"]
    m.freeze_support = lambda: None
    m.TimeoutError = type("TimeoutError", (Exception,), {}); m.ProcessError = type("ProcessError", (Exception,), {})
    mods = {"multiprocessing": m}
    for sub, names in (("process", ("current_process", "active_children", "parent_process")), ("queues", ()), ("synchronize", ()),
                       ("context", ()), ("connection", ())):
        sm = types.ModuleType("multiprocessing." + sub)
        for n in names:
            setattr(sm, n, getattr(m, n))
        mods["multiprocessing." + sub] = sm
        setattr(m, sub, sm)
    mods["multiprocessing.process"].BaseProcess = SProcess
    mods["multiprocessing.queues"].Queue = SQueue; mods["multiprocessing.queues"].Empty = Empty_; mods["multiprocessing.queues"].Full = Full
    mods["multiprocessing.synchronize"].Event = SEvent
    mods["multiprocessing.context"].Process = SProcess
    mods["multiprocessing.connection"].Connection = SConnection
    return mods


def program_exit(sim):
    """What the interpreter does with child processes when the program ends without having released them."""
    sim.op("program-exit")
    for p in sim.procs:
        if p._daemon and p._exitcode is None:
            p._kill(-15, "daemon terminated at exit")
    for p in sim.procs:
        while p._exitcode is None:
            sim.wait(p._joiners, None, "exit-join")
    for q in list(sim.main_queues):
        q._flush_all(sim, sim.main)

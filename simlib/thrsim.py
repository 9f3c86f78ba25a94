"""Threads and asynchronous exceptions inside the code under test, decided by the run's chooser.

CPython (3.12) switches threads and delivers KeyboardInterrupt only where the interpreter checks its eval breaker: at function
entry (RESUME), at backward jumps and right after a call of anything that is not a plain Python function (the exception then
belongs to the call instruction, although the effect of the call is complete). These places are instrumented in the code objects
of the package (and nowhere else) through sys.monitoring PY_START, INSTRUCTION and C_RETURN events; MemoryError may in addition strike
before a call, an operator or the construction of a container. Simulated threads are real threads passing a baton, so exactly one runs and the chooser alone
decides who continues at each of these places."""
import _thread
import dis
import gc
import sys
import threading
import time
import types
import zlib

from .core import HarnessError

TOOL = 3
EVAL, ALLOC, CALLB = 1, 2, 4
_tables = {}                # id(code) -> (points, id of the function, code)
_tracer = None
_instrumented = set()
_real_allocate = _thread.allocate_lock
_real_get_ident = _thread.get_ident
_real_sleep = time.sleep
_CALLS = {"CALL", "CALL_FUNCTION_EX", "CALL_KW", "CALL_METHOD"}
_ALLOCS = {"BINARY_OP", "BUILD_LIST", "BUILD_MAP", "BUILD_TUPLE", "BUILD_STRING", "FORMAT_VALUE", "BINARY_SUBSCR", "LIST_APPEND"}


def _table(code):
    t = {}
    for ins in dis.get_instructions(code, adaptive=False):
        k = 0
        name = ins.opname
        if name == "CACHE":
            continue
        if name == "JUMP_BACKWARD":
            k |= EVAL
        elif name in _CALLS:
            k |= ALLOC | CALLB
        elif name in _ALLOCS:
            k |= ALLOC
        if k:
            t[ins.offset] = k
    return t


def _on_instr(code, offset):
    e = _tables.get(id(code))
    if e is None:
        return sys.monitoring.DISABLE
    k = e[0].get(offset)
    if k is None:
        return sys.monitoring.DISABLE
    tr = _tracer
    if tr is None:
        return sys.monitoring.DISABLE        # costs nothing until the next tracer is activated
    tr.hit(e[1], offset, k)
    return None


def _on_c_return(code, offset, func, arg):
    tr = _tracer
    if tr is not None:
        e = _tables.get(id(code))
        if e is not None:
            tr.hit(e[1], offset + 1, EVAL)          # odd offsets: after the call at the even one


def _on_start(code, offset):
    tr = _tracer
    if tr is None:
        return sys.monitoring.DISABLE
    e = _tables.get(id(code))
    if e is not None:
        tr.hit(e[1], offset, EVAL)
    return None


def _off(*a):
    return sys.monitoring.DISABLE


def _activate(tr):
    global _tracer
    old, _tracer = _tracer, tr
    if (old is None) != (tr is None):
        sys.monitoring.register_callback(TOOL, sys.monitoring.events.CALL, _off if tr is None else None)
        if old is None:
            sys.monitoring.restart_events()
    return old


def _codes(code, out):
    if id(code) in out:
        return
    out[id(code)] = code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _codes(c, out)


def instrument(zern, is_subject):
    """Instrument all functions of one imported instance of the package (once)."""
    if id(zern) in _instrumented:
        return
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "zsim-thr")
        mon.register_callback(TOOL, mon.events.INSTRUCTION, _on_instr)
        mon.register_callback(TOOL, mon.events.C_RETURN, _on_c_return)
        mon.register_callback(TOOL, mon.events.CALL, _off)
        mon.register_callback(TOOL, mon.events.PY_START, _on_start)
    codes = {}
    for o in gc.get_objects():
        if type(o) is types.FunctionType and is_subject(o.__code__):
            _codes(o.__code__, codes)
    for c in codes.values():
        if id(c) not in _tables:
            name = (c.co_filename, c.co_qualname, c.co_firstlineno)
            cid = _cids.setdefault(name, len(_cids))
            _names[cid] = c.co_qualname; _order[cid] = name
            _tables[id(c)] = (_table(c), cid, c)
            mon.set_local_events(TOOL, c, mon.events.INSTRUCTION | mon.events.CALL | mon.events.PY_START)
    _instrumented.add(id(zern))


_cids, _names, _order = {}, {}, {}      # code objects of several imports of the same function share one id


def loc(cid, offset):
    """Place of a point, stable against edits elsewhere in the file."""
    return f"{_names[cid]}+{offset}"


class Counting:
    """Dry run: which points are passed, how often."""

    def __init__(self, mask=EVAL):
        self.mask, self.seen, self.total = mask, {}, 0
        self.ident = _real_get_ident()

    def hit(self, code, offset, k):
        if k & self.mask and _real_get_ident() == self.ident:
            key = (code, offset)
            self.seen[key] = self.seen.get(key, 0) + 1
            self.total += 1

    def __enter__(self):
        self._old = _activate(self)
        return self

    def __exit__(self, *a):
        _activate(self._old)

    def pick(self, ch):
        """A point: half of the draws uniform over places (then over their occurrences), half uniform over all occurrences."""
        if not self.seen:
            return None
        keys = sorted(self.seen, key=lambda k: (_order[k[0]], k[1]))
        if ch.pick(4) < 3:
            key = keys[ch.pick(len(keys))]
            n = self.seen[key]
            occ = [0, n - 1, None][ch.pick(3)]
            if occ is None:
                occ = ch.pick(n)
        else:
            x = ch.pick(self.total)
            for key in keys:
                if x < self.seen[key]:
                    break
                x -= self.seen[key]
            occ = x
        return key, occ


class Inject:
    """Raise exc at the given occurrence of a point."""

    def __init__(self, target, exc, mask=EVAL):
        self.key, self.left = target
        self.exc, self.mask, self.fired = exc, mask, False
        self.ident = _real_get_ident()

    def hit(self, code, offset, k):
        if self.fired or not k & self.mask or _real_get_ident() != self.ident:
            return
        if (code, offset) == self.key:
            if self.left == 0:
                self.fired = True
                raise self.exc("injected") if self.exc is not MemoryError else MemoryError()
            self.left -= 1

    __enter__ = Counting.__enter__
    __exit__ = Counting.__exit__


def interrupted(ch, dry, op, kind):
    """Run dry() to learn the points of the operation, then op() with one exception injected at a chosen one.
    Returns (fired, outcome, where): outcome is ("ok", value) or ("raised", exception)."""
    mask = EVAL if kind == "KeyboardInterrupt" else EVAL | ALLOC
    exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[kind]
    with Counting(mask) as c:
        try:
            dry()
        except Exception:
            pass
    target = c.pick(ch)
    if target is None:
        try:
            return False, ("ok", op()), "-"
        except Exception as e:
            e.__traceback__ = None
            return False, ("raised", e), "-"
    where = f"{loc(*target[0])}#{target[1]}"
    with Inject(target, exc, mask) as inj:
        try:
            out = ("ok", op())
        except (Exception, KeyboardInterrupt) as e:
            e.__traceback__ = None
            out = ("raised", e)
    return inj.fired, out, where


class StackRoom:
    """Leaves only a few more frames than the caller uses."""

    def __init__(self, room):
        self.room = room

    def __enter__(self):
        self.old = sys.getrecursionlimit()
        f, n = sys._getframe(), 0
        while f is not None:
            n += 1; f = f.f_back
        sys.setrecursionlimit(n + self.room)

    def __exit__(self, *a):
        sys.setrecursionlimit(self.old)


# ------------------------------------------------------------------------------------------------------- baton
class Stop(BaseException):
    """Unwinds simulated threads."""


class SimCrash(BaseException):
    """The simulated process of this task is gone."""


class T:
    def __init__(self, name, fn, pid=1, ident=None):
        self.name, self.fn, self.pid, self.sim_ident = name, fn, pid, ident
        self.lock = _real_allocate(); self.lock.acquire()
        self.done = False; self.blocked = None; self.error = None; self.result = None
        self.ident = None; self.crashed = False; self.n_ops = 0; self.hits = 0; self.inside = 0
        self.strike = None        # (number of its points, exception) raised in this task


class Baton:
    """Runs tasks one at a time; every call of point() may hand over."""

    def __init__(self, ch, res=None, max_switches=200_000):
        self.ch, self.res = ch, res
        self.tasks, self.by_ident = [], {}
        self.current = None
        self.over = None
        self.switches = 0
        self.max_switches = max_switches
        self.main_lock = _real_allocate(); self.main_lock.acquire()

    def add(self, name, fn, pid=1, ident=None):
        t = T(name, fn, pid, ident)
        self.tasks.append(t)
        return t

    def me(self):
        return self.by_ident.get(_real_get_ident())

    def runnable(self):
        return [t for t in self.tasks if not t.done and t.blocked is None]

    def _thread(self, t):
        t.lock.acquire()
        t.ident = _real_get_ident()
        self.by_ident[t.ident] = t
        try:
            if not self.over:
                t.result = t.fn()
        except (Stop, SimCrash):
            pass
        except BaseException as e:
            t.error = e
        t.done = True
        if self.res is not None:
            self.res.note("end", t.name, type(t.error).__name__)
        self._next()

    def _next(self):
        """Baton leaves a task that finished or blocked."""
        r = self.runnable()
        if not r or self.over:
            if all(t.done for t in self.tasks):
                self.main_lock.release()
            elif self.over or not r:
                # deadlock or unwinding: release everybody one by one
                self.over = self.over or "deadlock"
                left = [t for t in self.tasks if not t.done]
                left[0].blocked = None
                left[0].lock.release()
            return
        t = r[self.ch.pick(len(r))]
        self.current = t
        t.lock.release()

    def switch_to(self, t):
        me = self.current
        if t is me:
            return
        self.switches += 1
        if self.res is not None:
            self.res.note("sw", me.name, t.name, me.hits, me.n_ops)
        if self.switches > self.max_switches:
            self.over = self.over or "switches"
        self.current = t
        t.lock.release()
        me.lock.acquire()
        if self.over:
            raise Stop()
        if me.crashed:
            raise SimCrash()

    def block(self, what):
        me = self.current
        me.blocked = what
        self._next()
        me.lock.acquire()
        if self.over:
            raise Stop()
        if me.crashed:
            raise SimCrash()

    def wake(self, what):
        for t in self.tasks:
            if t.blocked is what:
                t.blocked = None

    def run(self):
        global ACTIVE
        ACTIVE = self
        ended = []
        try:
            for t in self.tasks:
                _thread.start_new_thread(_entry, ([ended, self, t],))
            first = self.tasks[self.ch.pick(len(self.tasks))]
            self.current = first
            first.lock.release()
            self.main_lock.acquire()
            for _ in range(20_000):          # until no thread refers to this simulation any more
                if len(ended) == len(self.tasks):
                    break
                _real_sleep(0.0005 if _ > 50 else 0)
        finally:
            ACTIVE = None
        return self.over or "done"


def _entry(box):
    ended = box.pop(0)
    try:
        box[0]._thread(box[1])
    finally:
        del box[:]
        ended.append(1)


ACTIVE = None


class ThreadSim(Baton):
    """Preemptive threads: a tracer that may hand over the baton at every eval-breaker point.

    strategy: ["pct", d, span] - d preemptions at drawn distances; ["prob", n] - hand over with probability 1/n;
    ["spot", n] - hand over (every second time on average) at the few places of the program a drawn hash selects, about 1/n."""

    def __init__(self, ch, res, strategy, max_switches=60_000, preemptions=2500):
        super().__init__(ch, res, max_switches)
        self.strategy = strategy
        self.preemptions = preemptions            # afterwards threads only hand over when they end or block
        self.count = 0
        self.left = 0
        if strategy[0] == "pct":
            self.gaps = [ch.pick(strategy[2]) + 1 for _ in range(strategy[1])]
        self.salt = ch.pick(1 << 16) if strategy[0] == "spot" else None
        self._arm()

    def _arm(self):
        if self.strategy[0] == "pct":
            self.left = self.gaps.pop() if self.gaps else 1 << 60
        elif self.strategy[0] == "spot":
            self.left = 0
        else:
            self.left = 1 + self.ch.pick(2 * self.strategy[1])

    def hit(self, code, offset, k):
        cur = self.current
        if cur is None or cur.ident != _real_get_ident():
            return
        if self.over:
            if cur.inside == 0:
                raise Stop()
            return
        cur.hits += 1
        if cur.strike is not None and cur.hits >= cur.strike[0] and cur.inside == 0:
            exc, cur.strike = cur.strike[1], None
            if self.res is not None:
                self.res.note("strike", cur.name, loc(code, offset))
                self.res.count(f"fault:{exc.__name__}-in-thread")
            raise exc()
        if self.salt is not None:
            if self.preemptions < 0 or (zlib.crc32(loc(code, offset).encode()) ^ self.salt*2654435761) % 65521 % self.strategy[1] or self.ch.pick(2):
                return
        else:
            self.left -= 1
            if self.left > 0:
                return
            self._arm()
        self.preemptions -= 1
        if self.preemptions < 0:
            self.left = 1 << 60
            return
        others = [t for t in self.tasks if not t.done and t.blocked is None and t is not cur]
        if others:
            if self.res is not None:
                self.res.note("at", loc(code, offset))
                self.res.count("fault:preemption")
            self.switch_to(others[self.ch.pick(len(others))])

    def run(self):
        old = _activate(self)
        try:
            return super().run()
        finally:
            _activate(old)


class SimLock:
    """Stand-in for threading.Lock/RLock created by the package, aware of the baton."""
    _reentrant = False

    def __init__(self, *a):
        self.owner, self.n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _real_get_ident()
        b = ACTIVE
        while self.owner is not None and not (self._reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            if b is None or b.me() is None:
                raise HarnessError("lock of the package held outside a simulation")
            b.block(self)
        self.owner = me
        self.n += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if self.n == 0:
            self.owner = None
            if ACTIVE is not None:
                ACTIVE.wake(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == _real_get_ident()


class SimRLock(SimLock):
    _reentrant = True

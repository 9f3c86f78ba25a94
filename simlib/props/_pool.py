"""Workloads on the worker pool (DispenserManager) inside the process simulator."""
import hashlib
from collections import Counter

import numpy as np

from .. import env, procsim
from ..choice import chooser_for
from ..core import HarnessError, Violation

DURS = [0.0, 1e-5, 5e-5, 1e-4, 2e-4, 5e-4, 2e-3, 1e-2]
CPUS = [2, 3, 4, 5, 8, 16]
FLAVOURS = ["int", "none", "started", "array", "mixed", "falsy", "big", "tuple", "exc", "equal"]
PFLAVOURS = ["int", "float", "tuple", "str", "dup", "array", "falsy", "equal", "few"]


def make_params(flav, n, base):
    if flav == "int":
        return [base * 1000 + i for i in range(n)]
    if flav == "float":
        return [base + i * 0.125 for i in range(n)]
    if flav == "tuple":
        return [(i, (base, "c", i * 0.5)) for i in range(n)]
    if flav == "str":
        return [["Started", "", "stop", "p"][i % 4] + (str(base * 1000 + i) if i >= 4 else "") for i in range(n)]
    if flav == "dup":
        return [base * 1000 + i // 2 for i in range(n)]
    if flav == "few":
        return [base * 1000 + (i % 2 if base % 2 else 0) for i in range(n)]
    if flav == "array":
        return [np.array([base, i, 0.5]) for i in range(n)]
    if flav == "falsy":
        return [[None, 0, "", (), False, [], 0.0, {}, "Started", b""][i % 10] if i < 10 else (i, None) for i in range(n)]
    if flav == "equal":              # equal to each other but not the same
        return [[1, 1.0, True, 1 + 0j, -0.0, 0.0, 0, (1, 1), (1.0, True)][i % 9] for i in range(n)]
    raise ValueError(flav)


def mutate(params, how, lo):
    """The caller changes its own list in place; returns what it was before. At least `lo` parameters remain, except for clear."""
    old = list(params)
    if not params:
        return old
    if how == "append":
        params.append(params[0])
    elif how == "pop" and len(params) > lo:
        params.pop()
    elif how == "reverse":
        params.reverse()
    elif how == "replace":
        params[len(params)//2] = "replaced"
    elif how == "clear":
        params.clear()
    return old


MUTATIONS = ["append", "pop", "pop", "reverse", "replace"]


def which(job, old, new, results, done=None):
    """The list whose parameters have been computed: both are right answers after a change in place."""
    if done is not None and done != Counter(pkey(p) for p in old):
        return list(new)
    if len(old) == len(results) and all(same(r, job.expect(p)) for p, r in zip(old, results)):
        return old
    return list(new)


def pkey(p):
    if isinstance(p, np.ndarray):
        return ("arr", p.tobytes())
    return (type(p).__name__, repr(p))


def _num(p):
    return int.from_bytes(hashlib.sha256(repr(pkey(p)).encode()).digest()[:3], "big")


def value_for(p, flav):
    k = _num(p)
    if flav == "int":
        return k + 1
    if flav == "none":
        return None if k % 3 else k
    if flav == "started":
        return "Started" if k % 2 else "Started" + str(k)
    if flav == "array":
        return np.full((2, 3), k, dtype=float)
    if flav == "falsy":
        return [0, None, False, "", [], 0.0, (), {}][k % 8]
    if flav in ("big", "huge"):
        return (str(k) + "#") * (3000 if flav == "big" else 12000)
    if flav == "tuple":
        return (k, {"a": k})
    if flav == "exc":                # a result that is an exception, not a failure
        return [ValueError(k), RuntimeError("worker", k), StopIteration(k), KeyboardInterrupt(), Exception][k % 5]
    if flav == "equal":
        return [k % 2, float(k % 2), bool(k % 2), -0.0, None][k//2 % 5]
    return [0, None, False, "Started", complex(k, 1), np.arange(k % 4), [k], "x"][k % 8]


def same(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and env.arr_eq(a, b)
    if isinstance(b, BaseException):
        return type(a) is type(b) and a.args == b.args
    if type(b) in (tuple, list):
        return type(a) is type(b) and len(a) == len(b) and (a is b or all(same(x, y) for x, y in zip(a, b)))
    return type(a) is type(b) and a == b and (not isinstance(a, float) or repr(a) == repr(b))


class Job:
    """The function given to a pool. Picklable state only matters under fork semantics: the simulator shares it."""

    def __init__(self, tag, flav, log, durs, fail=None, fail_exc=None, salt=""):
        self.hang = ()               # numbers of the calls that never return by themselves
        self.untransferable = {}     # number of the call -> kind of a result that cannot be transferred
        self.tag, self.flav, self.log, self.durs, self.fail, self.fail_exc, self.salt = tag, flav, log, durs, fail, fail_exc, salt

    def __call__(self, p):
        s = procsim.ACTIVE
        n = len(self.log)            # number of this call
        self.log.append((self.tag, pkey(p)))
        d = self.durs[s.ch.pick(len(self.durs))]
        if n in self.hang:
            d = HANG
        s.op("job", self.tag)
        if d:
            s.sleep(d)
        if self.fail is not None and n in self.fail:
            s.fire("job-exception")
            raise self.fail_exc(n)
        if n in self.untransferable:
            s.fire("untransferable")
            return BadPickle(self.untransferable[n])
        return value_for(p, self.flav + "") if not self.salt else (self.salt, value_for(p, self.flav))

    def expect(self, p):
        return value_for(p, self.flav) if not self.salt else (self.salt, value_for(p, self.flav))


HANG = 1e7


def _fail_load(kind):
    raise {"load": ValueError, "load-eof": EOFError, "load-type": TypeError}[kind]("cannot be rebuilt")


class BadPickle:
    """A value that cannot be transferred between processes: pickling (or the rebuilding at the other side) fails."""
    KINDS = ["lambda", "dump", "dump-type", "load", "load-eof", "load-type"]

    def __init__(self, kind):
        self.kind = kind
        if kind == "lambda":
            self.fn = lambda: 0

    def __reduce_ex__(self, protocol):
        if self.kind == "lambda":
            return object.__reduce_ex__(self, protocol)
        if self.kind.startswith("load"):
            return _fail_load, (self.kind,)
        raise (ValueError if self.kind == "dump" else TypeError)("cannot be pickled")


class NastyError(Exception):
    def __init__(self, *a):
        super().__init__(*a)
        self.fn = lambda: 0          # not picklable

    def __reduce__(self):
        raise TypeError("cannot be pickled")


class TwoArgError(Exception):
    def __init__(self, a=1, b=2):    # fails to unpickle when rebuilt from args
        super().__init__("two")


class BadStr(Exception):             # cannot be described
    def __str__(self):
        raise RuntimeError("no text")
    __repr__ = __str__


class HugeText(Exception):
    def __init__(self, *a):
        super().__init__("failed "*30000)


class BaseStop(BaseException):
    pass


FAIL_EXCS = {"ValueError": ValueError, "ZeroDivisionError": ZeroDivisionError, "MemoryError": MemoryError,
             "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "Nasty": NastyError, "TwoArg": TwoArgError,
             "StopIteration": StopIteration, "EOFError": EOFError, "BaseStop": BaseStop, "BadStr": BadStr, "HugeText": HugeText, "Recursion": RecursionError,
             "Group": lambda *a: ExceptionGroup("several", [ValueError(1), OSError(2)])}


def gen_plan(rng, max_params=14):
    cpu = rng.choice(CPUS)
    n_workers = rng.choice([None, None, 2, 2, 3, 4, cpu, cpu + 3, 1, 0])
    eff = effective_workers(cpu, n_workers)
    lo = eff
    n = rng.choice([lo, lo, lo + 1, lo + rng.randrange(0, max_params)])
    rounds = []
    for r in range(rng.choice([1, 1, 2, 2, 3])):
        if r == 0:
            rounds.append({"update": False, "n": n})
        else:
            rounds.append({"update": rng.random() < 0.7, "n": lo + rng.randrange(0, max_params)})
    return {"cpu": cpu, "n_workers": n_workers, "rounds": rounds, "flav": rng.choice(FLAVOURS), "pflav": rng.choice(PFLAVOURS),
            "verbose": rng.random() < 0.25, "durset": rng.choice(["zero", "short", "mixed", "long"])}


def effective_workers(cpu, n_workers):
    c = cpu or 1
    default = max(1, c // 2)
    if n_workers is not None and 2 <= n_workers <= c:
        return n_workers
    return default


DURSETS = {"zero": [0.0], "short": [0.0, 1e-5, 3e-5, 1e-4], "mixed": DURS, "long": [1e-3, 5e-3, 2e-2],
           "minutes": [0.0, 5.0, 100.0], "hours": [0.0, 30.0, 7200.0]}


def gen_timing(rng):
    return {"profile": rng.choice(["tight", "mixed", "mixed", "wild"]), "feeder": rng.choice(["tight", "mixed", "wild", "wild"]),
            "start_delay": rng.choice([0.0, 0.0, 1e-3, 0.05])}


def gen_stalls(rng, k=3, tasks=("P", "W0", "W1", "W2")):
    out = []
    for _ in range(rng.randrange(0, k)):
        out.append({"kind": "stall", "task": rng.choice(tasks), "where": "before", "op": rng.randrange(0, 60),
                    "dur": rng.choice([1e-3, 1e-2, 0.1])})
    return out


def new_sim(case, res, max_time=60.0, max_steps=300_000, clock=None):
    t = case["timing"]
    sim = procsim.Sim(chooser_for(case), profile=t["profile"], feeder=t["feeder"], res=res, max_time=max_time, max_steps=max_steps,
                      clock=clock)
    sim.start_delay = t.get("start_delay", 0.0)
    for f in case.get("faults", []):
        if f["kind"] == "refuse-start":
            sim.start_faults[f["n"]] = True
        elif f["kind"] not in ("job", "pickle"):
            sim.add_fault(f)
    return sim


def finish(sim, case, res):
    res.choices = sim.ch.record
    res.simtime += sim.now
    res.steps += sim.steps
    res.count("ops", sim.steps)
    if sim.over_reason == "simulator-crash":
        raise HarnessError(sim.crash)
    if len(sim.tasks) > 2:
        res.nontrivial = True


def known_hang_sig(sim):
    """A worker that waits in Event.wait() is killed between the parent's liveness check and its Event.set(): CPython's
    set() then never returns. Only that exact history gets a signature."""
    d = sim.set_with_dead_waiter
    if d is None or sim.over_reason not in ("deadlock", "time"):
        return None
    setter, proc, t = d
    if setter is not sim.main or setter.recent[-1:] != ["set"]:
        return None
    seen = setter.last_alive_seen.get(proc)
    if seen is None or proc._killed_at < seen[0]:
        return None
    gap = setter.ops - seen[1]
    if gap <= 2 and all(o in ("put", "set") for o in setter.recent[-gap:]):
        return "killed-between-liveness-check-and-set"
    return None


def stuck_report(sim):
    out = []
    for t in sim.final:
        out.append(f"{t[0]}:{t[1]}/{t[2]}")
    return f"ended by {sim.over_reason} at t={sim.now:.4f} after {sim.steps} steps; " + " ".join(out)


def check_results(job, params, results, where):
    if results is None:
        raise Violation("no-result", f"{where}: compute returned None")
    results = list(results)
    if len(results) != len(params):
        raise Violation("wrong-length", f"{where}: {len(results)} results for {len(params)} parameters")
    for i, (p, r) in enumerate(zip(params, results)):
        e = job.expect(p)
        if not same(r, e):
            raise Violation("wrong-result", f"{where}: result {i} is {r!r}, expected {e!r}")

"""C11: polynomial values do not depend on evaluation history, threads or interrupts."""
import warnings
from fractions import Fraction
from math import factorial

import numpy as np

from .. import env
from ..choice import chooser_for
from ..core import Violation
from ..thrsim import StackRoom, ThreadSim, instrument, interrupted

ID = "C11"
LEVEL = "exploration"
RULE = "run counts as non-trivial when a thread was preempted or an evaluation was stopped inside the package; distinct = distinct event-sequence hash"
QUICK_RUNS, THOROUGH_RUNS = 6000, 200000

RADII = {"s1": 0.37, "s2": 1.0, "s3": 0.0, "s4": 0.99, "v1": [0.0, 0.1, 0.37, 0.5, 0.73, 0.9, 1.0], "v2": [0.61], "v3": [0.25, 0.8, 0.95], "v4": [0.95, 0.25, 0.6],
         "m1": [[0.05, 0.4], [0.7, 0.99]]}
ANGLES = {"s1": 0.6, "s2": 0.0, "s3": 3.9, "s4": 6.2, "v1": [0.0, 0.3, 1.1, 2.5, 3.6, 5.0, 6.28], "v2": [1.7], "v3": [0.2, 4.4, 6.0], "v4": [1.3, 0.2, 2.9],
          "m1": [[0.1, 2.2], [3.3, 5.9]]}
METHODS = ["value", "value", "radial", "radial", "dr", "dr", "tri", "dtri", "normf", "sum", "surface"]
FORMS = ["as", "as", "as", "list", "strided", "readonly"]


def setup():
    for c in (4, 8):
        instrument(env.load(cpu=c, numba="absent"), env.is_subject)


def gen_pol(rng):
    n = rng.choice([rng.randrange(0, 13), rng.randrange(9, 15), rng.randrange(13, 23), rng.randrange(13, 23), rng.randrange(20, 35), rng.randrange(33, 45)])
    m = rng.randrange(-n, n + 1, 2) if n else 0
    if n > 40:
        m = rng.choice([-1, 1])*rng.choice([n, n - 2, n - 4])
    elif rng.random() < 0.3:
        m = n % 2
    return [m, n]


def gen_call(rng, pols, kinds=None):
    c = ["eval", rng.choice(pols), rng.choice(METHODS), rng.choice(list(RADII)), rng.choice(FORMS), rng.random() < 0.12]
    if c[2] in ("sum", "surface"):
        c.append([rng.choice(pols), round(rng.uniform(-1, 1), 3)])
    return c


def gen(rng, idx):
    base = gen_pol(rng)
    near = [base, [-base[0], base[1]]]
    for d in (1, 2, 3):                                             # relatives share intermediate results
        n = base[1] + d
        if n <= 42:
            near.append([base[0] + (d % 2), n])
            if base[0] - (d % 2) >= -n:
                near.append([base[0] - (d % 2), n])
    pols = [p for p in near if abs(p[0]) <= p[1] and (p[1] <= 40 or abs(p[0]) >= p[1] - 4)][:rng.choice([2, 4, 6])] + [gen_pol(rng) for _ in range(rng.randrange(0, 4))]
    if rng.random() < 0.5:
        n_thr = rng.choice([2, 2, 3, 4])
        case = {"mode": "thr", "threads": [[gen_call(rng, pols) for _ in range(rng.randrange(1, 4))] for _ in range(n_thr)],
                "share": rng.random() < 0.6, "before": [gen_call(rng, pols) for _ in range(rng.choice([0, 0, 1, 3]))],
                "strategy": rng.choice([["pct", 1, 300], ["pct", 2, 300], ["pct", 3, 2000], ["pct", 3, 100], ["prob", 3], ["prob", 10], ["prob", 40], ["spot", 8], ["spot", 30]])}
        case["strike"] = []
        if rng.random() < 0.4:
            for t in range(n_thr):
                if rng.random() < 0.5:
                    case["strike"].append([t, rng.choice([rng.randrange(1, 20), rng.randrange(1, 150), rng.randrange(1, 3000)]),
                                           rng.choice(["KeyboardInterrupt", "MemoryError"])])
        case["hot"] = rng.random() < 0.2
    else:
        ops = []
        for _ in range(rng.randrange(2, 9)):
            r = rng.random()
            if r < 0.5:
                ops.append(gen_call(rng, pols))
            elif r < 0.9:
                ops.append(["int", gen_call(rng, pols), rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "stack", "numeric", "warning"])])
            elif r < 0.95:
                ops.append(["scribble"])
            else:
                ops.append(["bad", rng.choice(pols), rng.choice(["range", "nan", "shape", "type", "sum"])])
        case = {"mode": "hist", "ops": ops, "share": rng.random() < 0.5}
    if case["mode"] == "thr" and rng.random() < 0.12:
        # the store of coefficients is filled far beyond what it starts with, while the threads look for more
        top = rng.randrange(21, 31)
        case["before"] = [["eval", [rng.choice([0, 1, 2, 4])//2*2 + top % 2, top], rng.choice(["radial", "dr"]), rng.choice(["s1", "v2"]), "as", False] for _ in range(rng.choice([1, 1, 2]))]
        for t in case["threads"]:
            n = top + rng.randrange(-3, 6)
            t[:] = [["eval", [rng.choice([-1, 1])*(rng.choice([0, 2, 4, 6]) + n % 2), n], rng.choice(["radial", "dr"]), rng.choice(["s1", "v2"]), "as", False]] + t[:1]
        case["strategy"] = rng.choice([["prob", 3], ["prob", 10], ["pct", 3, 2000], ["spot", 8], ["spot", 30], ["spot", 30]])
    case["faults"] = []
    return case


def directed():
    call = lambda p, m, x="v1", ex=False: ["eval", p, m, x, "as", ex]
    for kind in ("KeyboardInterrupt", "MemoryError", "stack"):
        for p in ([1, 13], [2, 14], [0, 16], [-3, 15], [4, 22], [-13, 13], [-12, 14]):
            for m in ("radial", "dr"):
                yield {"mode": "hist", "share": False, "faults": [], "seed": 3 + p[1],
                       "ops": [["int", call(p, m), kind], call(p, "value"), call(p, "dr"), call([abs(p[0]) + 1, p[1] + 1], "value"), call([abs(p[0]) + 1, p[1] + 1], "dr")]}
    for strat in (["prob", 3], ["pct", 2, 200]):
        for p in ([2, 14], [1, 15], [-2, 18]):
            yield {"mode": "thr", "share": True, "faults": [], "seed": 4, "before": [], "strategy": strat, "strike": [], "hot": False,
                   "threads": [[call(p, "dr")], [call(p, "radial"), call([abs(p[0]) + 1, p[1] + 1], "dr")], [call(p, "dr")]]}


# ------------------------------------------------------------------------------------------------ exact reference
_coeffs, _exact = {}, {}


def coeffs(m, n):
    m = abs(m)
    if (m, n) not in _coeffs:
        _coeffs[m, n] = {n - 2*k: (-1)**k*factorial(n - k)//(factorial(k)*factorial((n + m)//2 - k)*factorial((n - m)//2 - k))
                         for k in range((n - m)//2 + 1)}
    return _coeffs[m, n]


def exact(m, n, r, dr):
    key = (abs(m), n, r, dr)
    if key not in _exact:
        x = Fraction(r)
        c = coeffs(m, n)
        _exact[key] = float(sum(v*k*x**(k - 1) for k, v in c.items() if k)) if dr else float(sum(v*x**k for k, v in c.items()))
    return _exact[key]


def tol(n, method):
    t = max(1e-12, 5e-12*10**(0.36*(n - 12)))
    if n > 40:
        t = 1.0
    return t*max(1, n*n) if method == "dr" else t*(1 + n) if method in ("value", "sum", "surface") else t


def definition(p, method, x):
    """Value by definition at the named coordinates (shape of the named input)."""
    m, n = p
    r, th = np.array(RADII[x], float), np.array(ANGLES[x], float)
    tri = np.cos(m*th) if m >= 0 else np.sin(-m*th)
    if method == "tri":
        return tri
    if method == "dtri":
        return -m*np.sin(m*th) if m >= 0 else -m*np.cos(m*th)
    nf = np.sqrt(n + 1) if m == 0 else np.sqrt(2*(n + 1))
    if method == "normf":
        return np.array(nf)
    rad = np.array([exact(m, n, v, method == "dr") for v in r.ravel()]).reshape(r.shape)
    return rad if method in ("radial", "dr") else nf*tri*rad


_ref = {}


def alone(z, p, method, x, ex):
    """What a pristine package computes for it."""
    key = (id(z), tuple(p), method, x, ex)
    if key not in _ref:
        z.reset()
        c = ["eval", p, method, x, "as", ex]
        with env.quiet():
            _ref[key] = np.array(evaluate(z, c, z.ZernPol(m=p[0], n=p[1]), None)[0])
    return _ref[key]


class Input:
    """Coordinates in one of the accepted forms, and whether they were altered."""

    def __init__(self, x, form, th):
        src = (ANGLES if th else RADII)[x]
        self.arr = None
        if not isinstance(src, list):
            self.v = src
            return
        a = np.array(src, float)
        if form == "list":
            self.v = [list(q) if isinstance(q, list) else q for q in src]
            self.keep = repr(self.v)
            return
        if form == "strided":
            b = np.full((a.shape[0]*2,) + a.shape[1:], 0.5)
            b[::2] = a
            a = b[::2]
        if form == "readonly":
            a.setflags(write=False)
        self.v = self.arr = a
        self.copy = a.copy()

    def check(self, what):
        if self.arr is not None and not env.arr_eq(self.arr, self.copy):
            raise Violation("input-altered", f"{what} altered the coordinates given to it")
        if isinstance(self.v, list) and repr(self.v) != self.keep:
            raise Violation("input-altered", f"{what} altered the list given to it")


def evaluate(z, c, pol, pol2):
    _, p, method, x, form, ex = c[:6]
    r, th = Input(x, form, False), Input(x, form, True)
    if method == "value":
        v = pol.polynomial_value(r.v, th.v, use_exact_eq=ex)
    elif method == "radial":
        v = pol.radial(r.v, use_exact_eq=ex)
    elif method == "dr":
        v = pol.radial_dr(r.v, use_exact_eq=ex)
    elif method == "tri":
        v = pol.triangular(th.v)
    elif method == "dtri":
        v = pol.triangular_dtheta(th.v)
    elif method == "normf":
        v = pol.normf()
    else:
        v = z.ZernPol.sum_zernikes([0.5, c[6][1]], [pol, pol2], r.v, th.v, get_surface=method == "surface" and isinstance(r.arr, np.ndarray) and r.arr.ndim == 1)
    return v, r, th


def expect(c, z2, via):
    """Expected value and tolerance; via: 'definition' or 'alone'."""
    _, p, method, x, form, ex = c[:6]
    one = (lambda q, m, xx: definition(q, m, xx)) if via == "definition" else (lambda q, m, xx: alone(z2, q, m, xx, ex if q is p else False))
    if method in ("sum", "surface"):
        q, a = c[6]
        if method == "surface" and form not in ("list",) and isinstance(RADII[x], list) and not isinstance(RADII[x][0], list):
            def surf(m, n):
                rad = definition([m, n], "radial", x)
                nf = np.sqrt(n + 1) if m == 0 else np.sqrt(2*(n + 1))
                return nf*np.outer(rad, definition([m, n], "tri", x))
            return 0.5*surf(*p) + a*surf(*q), tol(p[1], method) + tol(q[1], method)
        return 0.5*definition(p, "value", x) + a*definition(q, "value", x), tol(p[1], method) + tol(q[1], method)
    if via == "alone":
        return alone(z2, p, method, x, ex), tol(p[1], method)*1e-2
    return definition(p, method, x), tol(p[1], method)


class Log:
    def __init__(self):
        self.items = []

    def add(self, c, v, r, th, where):
        self.items.append((c, v, np.array(v), r, th, where))

    def arrays(self):
        for c, v, copy, r, th, where in self.items:
            if isinstance(v, np.ndarray):
                if not env.arr_eq(v, copy):
                    raise Violation("returned-array-altered", f"the result of {c[:4]} ({where}) changed later")
            r.check(f"{c[:4]}"); th.check(f"{c[:4]}")

    def alias(self):
        for i, (c, v, copy, r, th, where) in enumerate(self.items):
            if not isinstance(v, np.ndarray):
                continue
            for x in (r, th):
                if x.arr is not None and np.shares_memory(v, x.arr):
                    raise Violation("result-shares-memory", f"{c[:4]} returned memory of its input")
            for c2, v2, *_ in self.items[:i]:
                if isinstance(v2, np.ndarray) and v2 is not v and np.may_share_memory(v, v2) and np.shares_memory(v, v2):
                    raise Violation("result-shares-memory", f"results of {c[:4]} and {c2[:4]} share memory")
                if v2 is v:
                    raise Violation("result-shares-memory", f"{c[:4]} and {c2[:4]} returned the same array")

    def check(self, z2, res):
        for c, v, copy, r, th, where in self.items:
            for via in ("definition", "alone"):
                if via == "alone" and (c[2] in ("sum", "surface")):
                    continue
                if c[5] and c[1][1] > 38:
                    continue                                     # the exact equation is documented as not applicable there
                if via == "definition" and c[1][1] > 40 and c[2] in ("value", "radial", "dr", "sum", "surface"):
                    continue
                if c[2] in ("sum", "surface") and c[6][0][1] > 40:
                    continue
                e, t = expect(c, z2, via)
                a = np.asarray(copy, float)
                if a.shape != e.shape:
                    raise Violation("wrong-shape", f"{c} ({where}): shape {a.shape}, expected {e.shape}")
                d = np.abs(a - e)
                if not np.all(d <= t*(1 + np.abs(e))):
                    raise Violation("wrong-value", f"{c} ({where}): differs by {np.nanmax(d):.3g} from its {'definition' if via == 'definition' else 'value in a fresh program'}, {a.ravel()[:3]} instead of {e.ravel()[:3]}")
            res.count("values-compared")


def run(case, res):
    z2 = env.load(cpu=8, numba="absent")
    z = env.load(cpu=4, numba="absent")
    try:
        with env.quiet():
            (_thr if case["mode"] == "thr" else _hist)(case, res, z, z2)
    finally:
        z2.reset()


def pol_maker(z, share):
    memo = {}

    def pol(p):
        if not share:
            return z.ZernPol(m=p[0], n=p[1])
        if tuple(p) not in memo:
            memo[tuple(p)] = z.ZernPol(m=p[0], n=p[1])
        return memo[tuple(p)]
    return pol


def second(c, pol):
    return pol(c[6][0]) if len(c) > 6 else None


def all_pols(calls):
    out = []
    for c in calls:
        for p in [c[1]] + ([c[6][0]] if len(c) > 6 else []):
            if p not in out:
                out.append(p)
    return out


def _hist(case, res, z, z2):
    ch = chooser_for(case)
    z2.reset()
    pol, pol2 = pol_maker(z, case["share"]), pol_maker(z2, case["share"])
    log = Log()
    calls = []
    hits = 0
    for n_op, op in enumerate(case["ops"]):
        if op[0] == "eval":
            calls.append(op)
            v, r, th = evaluate(z, op, pol(op[1]), second(op, pol))
            log.add(op, v, r, th, f"operation {n_op}")
            evaluate(z2, op, pol2(op[1]), second(op, pol2))           # the twin shares the history, so that points agree
        elif op[0] == "int":
            c, kind = op[1], op[2]
            calls.append(c)
            a, b, a2, b2 = pol(c[1]), second(c, pol), pol2(c[1]), second(c, pol2)
            go = lambda: evaluate(z, c, a, b)
            where = kind
            if kind in ("KeyboardInterrupt", "MemoryError"):
                fired, out, where = interrupted(ch, lambda: evaluate(z2, c, a2, b2), go, kind)
            else:
                room = 3 + ch.pick(4) + ch.pick(40)
                try:
                    if kind == "stack":
                        with StackRoom(room):
                            out = ("ok", go())
                    elif kind == "numeric":
                        with np.errstate(all="raise"):
                            out = ("ok", go())
                    else:
                        with warnings.catch_warnings():
                            warnings.simplefilter("error")
                            out = ("ok", go())
                except (RecursionError, FloatingPointError, Warning) as e:
                    e.__traceback__ = None
                    out = ("raised", e)
                fired = out[0] == "raised"
            res.note("int", c, where, fired, out[0])
            if fired:
                hits += 1
                res.count(f"fault:{kind}")
            if out[0] == "ok":
                log.add(c, *out[1], f"operation {n_op}, {kind} at {where}")
            elif not fired:
                raise Violation("unexpected-error", f"{c}: {type(out[1]).__name__}: {out[1]}")
        elif op[0] == "scribble":                                        # the caller writes into what it got
            log.arrays(); log.alias()
            for c, v, *_ in log.items:
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v[...] = 77.0
            log.check(z2, res)
            log.items.clear()
        else:
            try:
                p = pol(op[1])
                if op[2] == "range":
                    p.polynomial_value([0.1, 1.2], [0.0, 0.1])
                elif op[2] == "nan":
                    p.radial(np.array([np.nan, 0.5])); p.radial_dr(np.array([np.nan]))
                elif op[2] == "shape":
                    p.polynomial_value(np.array([0.1, 0.2]), np.array([0.1]))
                elif op[2] == "type":
                    p.radial("x")
                else:
                    z.ZernPol.sum_zernikes([1.0], [p, p], 0.1, 0.1)
            except (ValueError, TypeError):
                res.count("rejected-calls")
    finish(res, z, z2, pol, log, calls)
    res.nontrivial = hits > 0
    res.choices = ch.record


def refill(z, o, p, log):
    """The caller uses the same arrays again, with other coordinates in them."""
    r, th = Input("v3", "as", False), Input("v3", "as", True)
    keep = Input("s1", "as", False)
    for x in ("v3", "v4"):
        r.arr[...] = RADII[x]
        th.arr[...] = ANGLES[x]
        for method in ("value", "radial", "dr", "tri", "dtri"):
            v = getattr(o, {"value": "polynomial_value", "dr": "radial_dr", "tri": "triangular", "dtri": "triangular_dtheta"}.get(method, method))(
                *((r.arr, th.arr) if method == "value" else (th.arr,) if method in ("tri", "dtri") else (r.arr,)))
            log.add(["eval", p, method, x, "as", False], v, keep, keep, "arrays used again with other coordinates")
    if not env.arr_eq(r.arr, np.array(RADII["v4"])) or not env.arr_eq(th.arr, np.array(ANGLES["v4"])):
        raise Violation("input-altered", f"an evaluation of {p} altered the coordinates given to it")


def finish(res, z, z2, pol, log, calls):
    """Everything once more, on used and on new objects; then the verdict."""
    for p in all_pols(calls):
        for method in ("value", "radial", "dr"):
            for o in (pol(p), z.ZernPol(m=p[0], n=p[1])):
                c = ["eval", p, method, "v1", "as", False]
                log.add(c, *evaluate(z, c, o, None), "evaluation after everything")
        refill(z, pol(p), p, log)
    log.arrays(); log.alias()
    log.check(z2, res)
    for it in log.items:
        res.note(it[0], np.round(np.asarray(it[2], float), 6).tolist())


def _thr(case, res, z, z2):
    ch = chooser_for(case)
    sim = ThreadSim(ch, res, case["strategy"])
    pol = pol_maker(z, case["share"])
    log = Log()
    calls = list(case["before"]) + [c for t in case["threads"] for c in t]
    for c in case["before"]:
        log.add(c, *evaluate(z, c, pol(c[1]), second(c, pol)), "before the threads")
    if case["share"]:
        for p in all_pols(calls):
            pol(p)
    struck = {t for t, *_ in case["strike"]}

    def body(i, todo):
        def go():
            for c in todo * (2 if case["hot"] else 1):
                mine = pol if case["share"] else pol_maker(z, False)
                try:
                    v, r, th = evaluate(z, c, mine(c[1]), second(c, mine))
                except (KeyboardInterrupt, MemoryError):
                    if i not in struck:
                        raise
                    continue
                log.add(c, v, r, th, f"thread {i}")
        return go
    tasks = [sim.add(f"T{i}", body(i, todo)) for i, todo in enumerate(case["threads"])]
    for t, n, kind in case["strike"]:
        if t < len(tasks):
            tasks[t].strike = (n, {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[kind])
    why = sim.run()
    res.choices = ch.record
    for t in tasks:
        t.strike = None
        if t.error is not None:
            raise Violation("unexpected-error", f"{t.name}: {type(t.error).__name__}: {t.error}")
    if why != "done":
        raise Violation("never-returns", f"threads ended by {why}")
    res.steps += sum(t.hits for t in tasks)
    finish(res, z, z2, pol, log, calls)
    res.nontrivial = sim.switches > 0
    res.count("switches", sim.switches)

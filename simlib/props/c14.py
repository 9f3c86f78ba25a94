"""C14: missing, broken or failing acceleration never changes results."""
import json
import sys
import types
import warnings

import numpy as np

from .. import env
from ..choice import Chooser, chooser_for
from ..core import Violation
from ..thrsim import instrument, interrupted
from . import _psf as K

ID = "C14"
LEVEL = "exploration"
RULE = "run counts as non-trivial when an optional library was absent, broken, replaced or failed, or an accelerated computation was stopped; distinct = distinct event-sequence hash"
QUICK_RUNS, THOROUGH_RUNS = 2000, 60000

BROKEN = ["absent", "importerror", "oserror-dll", "oserror", "attrerror", "syserror", "runtime", "valueerror", "none-entry", "stub"]
ENV_NUMBA = ["pyjit", "pyjit", "pyjit", "pyjit", "pyjit/nometa", "pyjit/v0.57.0rc1", "pyjit/v0+unknown", "pyjit/v0.56.4", "lazyfail", "lazyfail", "njit-raises",
             "present", "present"] + BROKEN
ENV_JOBLIB = ["asis", "asis", "fakejob", "fakejob", "jobfail"] + BROKEN
ACC = [None, True, False]


# ------------------------------------------------------------------------------------------------------- stand-ins
class Switch:
    """What the stand-ins do, decided by the run."""
    fail_at = None           # how many more calls of compiled functions succeed
    exc = "RuntimeError"
    compiled_calls = 0
    order = None             # Chooser of the order in which the parallel library finishes its tasks
    job_fail = None
    jobs = 0


class TypingError(Exception):
    pass


EXCS = {"RuntimeError": RuntimeError, "TypingError": TypingError, "OSError": OSError, "MemoryError": MemoryError, "SystemError": SystemError}


def _decorator(make):
    def njit(*args, **kwargs):
        if len(args) == 1 and callable(args[0]) and not kwargs:
            return make(args[0])
        return make
    return njit


def _numba(make):
    def create(name):
        m = types.ModuleType(name)
        m.__path__ = []
        m.__version__ = "0.60.0"
        d = _decorator(make)
        m.njit = m.jit = m.generated_jit = m.vectorize = m.guvectorize = d
        m.prange = range
        m.config = types.SimpleNamespace(NUMBA_NUM_THREADS=1)
        return m
    return create


def _lazy(f):
    def compiled(*a, **k):
        Switch.compiled_calls += 1
        if Switch.fail_at is not None:
            Switch.fail_at -= 1
            if Switch.fail_at < 0:
                Switch.fail_at = None
                raise EXCS[Switch.exc]("failed in nopython mode pipeline")
        return f(*a, **k)
    compiled.__name__ = f.__name__
    compiled.py_func = f
    return compiled


def _raises(f):
    raise RuntimeError("cannot compile: no code generator for this target")


def _joblib(fails):
    def create(name):
        m = types.ModuleType(name)
        m.__path__ = []

        class Parallel:
            def __init__(self, n_jobs=None, **kw):
                self.n_jobs = n_jobs

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def __call__(self, tasks):
                tasks = list(tasks)
                out = [None]*len(tasks)
                left = list(range(len(tasks)))
                while left:
                    i = left.pop(Switch.order.pick(len(left)) if Switch.order else 0)
                    Switch.jobs += 1
                    if fails and Switch.job_fail is not None:
                        Switch.job_fail -= 1
                        if Switch.job_fail < 0:
                            Switch.job_fail = None
                            raise RuntimeError("a worker process was terminated")
                    f, a, k = tasks[i]
                    out[i] = f(*a, **k)
                return out

        def delayed(f):
            return lambda *a, **k: (f, a, k)
        m.Parallel, m.delayed = Parallel, delayed
        m.cpu_count = lambda: 4
        return m
    return create


env.STANDINS.update({"pyjit": _numba(lambda f: f), "lazyfail": _numba(_lazy), "njit-raises": _numba(_raises), "fakejob": _joblib(False), "jobfail": _joblib(True)})


# ------------------------------------------------------------------------------------------------------- generation
ORDERS = [(m, n) for n in range(0, 11) for m in range(-n, n + 1, 2)]
HIGH = [(s*(n - d), n) for n in (11, 12, 13, 15, 17, 20, 24) for d in (0, 2) for s in (1, -1)]
UNSUPPORTED = [(1, 11), (-7, 11), (0, 12), (2, 14), (-9, 13), (4, 16)]


def gen_orders(rng):
    r = rng.random()
    return list(rng.choice(UNSUPPORTED if r < 0.04 else HIGH if r < 0.2 else ORDERS))


def gen_case_pols(rng, present):
    k = rng.choice([1, 1, 1, 1, 2, 2, 3] + ([] if present else [4, 6]))
    out = []
    while len(out) < k:
        p = gen_orders(rng)
        if p not in out:
            out.append(p)
    return out


def gen_phys(rng, n):
    p = K.gen_phys(rng, n)
    if rng.random() < 0.3:                    # also negligible, zero and large amplitudes
        odd = rng.choice([[0.0], [0.0, 1e-3], [1e-4, 4e-3, 9e-3], [1e-6, 0.02], [0.6, -1.1], [2.7, 1e-3]])
        a = p["a"] if isinstance(p["a"], list) else [p["a"]]
        for i in range(len(a)):
            if rng.random() < 0.6:
                a[i] = rng.choice([-1, 1])*rng.choice(odd)
        p["a"] = a if isinstance(p["a"], list) else a[0]
    p["type"] = rng.choice(["float", "float", "np", "list", "int", "tuple"])
    return p


def gen_calc(rng, n=1):
    if rng.random() < 0.12:                   # larger kernels, finer integration
        return rng.choice([[9, 20, 36], [11, 20, 36], [13, 20, 37], [19, 20, 36], [27, 20, 36], [3, 120, 36], [3, 60, 101], [3, 320, 300], [5, 101, 40]]) \
            if n == 1 else rng.choice([[9, 20, 36], [11, 20, 36], [3, 120, 36], [3, 60, 101]])
    return [rng.choice([3, 3, 3, 3, 4, 5]), rng.choice([20, 20, 22, 25]), rng.choice([36, 36, 37, 40])]


def gen(rng, idx):
    numba = rng.choice(ENV_NUMBA)
    joblib = rng.choice(ENV_JOBLIB) if numba != "present" else "asis"
    ops, objs = [], 0
    for _ in range(rng.randrange(1, 6)):
        r = rng.random()
        if not objs or r < 0.15:
            p = gen_case_pols(rng, numba == "present")
            ops.append(["new", p, gen_phys(rng, len(p)), gen_calc(rng, len(p))]); objs += 1
        o = rng.randrange(objs)
        r = rng.random()
        if r < 0.52:
            ops.append(["kernel", o, rng.random() < 0.6, rng.choice(ACC), rng.random() < 0.5, rng.random() < 0.15])
        elif r < 0.58:
            n = len([x for x in ops if x[0] == "new"][o][1])
            ops.append(["phys", o, gen_phys(rng, n)])
        elif r < 0.61:
            ops.append(["calc", o, gen_calc(rng, len([x for x in ops if x[0] == "new"][o][1]))])
        elif r < 0.63 and numba != "present":
            ops.append(["force", rng.random() < 0.5])
        elif r < 0.68:
            ops.append(["vanish", rng.choice(["none", "import-fails"])])
        elif r < 0.76:
            ops.append(["joblib", gen_orders(rng), gen_phys(rng, 1), gen_calc(rng), rng.random() < 0.5, rng.choice([None, rng.randrange(0, 300)])])
        elif numba == "lazyfail":
            ops.append(["fails", o, rng.choice(list(EXCS)), rng.choice([0, 1, rng.randrange(0, 100), rng.randrange(0, 4000)]), rng.random() < 0.5])
        elif numba != "present":
            ops.append(["stop", o, rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"]), rng.choice(ACC)])
        else:
            ops.append(["warn", o, rng.choice(ACC)])
    if not any(o[0] in ("kernel", "joblib") for o in ops):
        ops += [["kernel", o, True, acc, True, False] for o in range(objs) for acc in (True, False)]
    return {"numba": numba, "joblib": joblib, "ops": ops, "faults": []}


def directed():
    phys = lambda a: {"NA": 0.15, "wl": 0.5, "px": 0.75, "a": a, "type": "float"}
    acc = lambda: [["kernel", 0, True, True, True, False], ["kernel", 0, False, None, True, False], ["kernel", 0, False, False, True, False]]
    for m, n in ORDERS + HIGH + UNSUPPORTED:
        yield {"numba": "pyjit", "joblib": "asis", "ops": [["new", [[m, n]], phys(0.21), [3, 22, 36]]] + acc(), "faults": [], "seed": 1}
    for i in range(0, len(ORDERS) - 3, 3):
        yield {"numba": "pyjit", "joblib": "asis", "ops": [["new", [list(p) for p in ORDERS[i:i + 4]], phys([0.21, -0.13, 0.1, 0.17]), [3, 20, 36]]] + acc(), "faults": [], "seed": 1}
    for m, n in [(0, 0), (1, 1), (-3, 5), (2, 8), (0, 10), (12, 12), (-11, 13)]:
        yield {"numba": "present", "joblib": "asis", "ops": [["new", [[m, n]], phys(0.21), [3, 22, 36]]] + acc(), "faults": [], "seed": 1}
        yield {"numba": "present", "joblib": "asis", "ops": [["new", [[m, n], [0, 4]], phys([0.21, -0.1]), [3, 22, 36]]] + acc(), "faults": [], "seed": 1}
    one = [["new", [[1, 3]], phys(0.21), [3, 22, 36]], ["new", [[1, 3], [0, 4]], phys([0.21, 0.1]), [3, 22, 36]]]
    use = [["kernel", o, True, a, s, False] for o in (0, 1) for a in ACC for s in (True, False)] + [["force", True], ["kernel", 0, True, True, True, True]]
    for mode in BROKEN + ["pyjit/nometa", "pyjit/v0.57.0rc1", "pyjit/v0+unknown", "pyjit/v0.56.4", "njit-raises", "lazyfail"]:
        yield {"numba": mode, "joblib": "asis", "ops": one + use, "faults": [], "seed": 1}
    job = [["joblib", [1, 3], phys(0.2), [3, 20, 36], True, None]]
    for mode in BROKEN + ["fakejob", "jobfail"]:
        yield {"numba": "absent", "joblib": mode, "ops": job, "faults": [], "seed": 1}
        yield {"numba": mode if mode in BROKEN else "absent", "joblib": mode, "ops": one + use[:3] + job, "faults": [], "seed": 1}


# ------------------------------------------------------------------------------------------------------- running
def setup():
    try:                                     # whatever fails here fails again in the runs, which report it
        instrument(env.load(cpu=8, numba="absent"), env.is_subject)
        instrument(env.load(cpu=4, numba="pyjit"), env.is_subject)
        z = env.load(cpu=4, numba="present")
        with env.quiet():                    # compile once for all runs
            for pols in ([(1, 3)], [(1, 3), (0, 4)], [(1, 3), (0, 4), (2, 2)]):
                build(z, pols, {"NA": 0.1, "wl": 0.5, "px": 1.0, "a": [0.1]*len(pols) if len(pols) > 1 else 0.1, "type": "float"}, [3, 20, 36]) \
                    .calculate_psf_kernel(suppress_warnings=True, accelerated=True)
    except Exception:
        pass


def amplitude(p):
    a, t = p["a"], p["type"]
    if isinstance(a, list):
        if t == "tuple":
            return tuple(a)
        return np.array(a) if t == "np" else list(a)
    if t == "int":
        return round(a)
    return np.float64(a) if t == "np" else [a] if t == "list" else (a,) if t == "tuple" else a


def build(z, pols, phys, calc):
    pols = [z.ZernPol(m=m, n=n) for m, n in pols]
    obj = z.ZernPSF(pols[0] if len(pols) == 1 else pols)
    obj.set_physical_props(phys["NA"], phys["wl"], amplitude(phys), phys["px"])
    obj.set_calculation_props(*calc)
    return obj


_memo = {}


def reference(z2, st, normalized, integral):
    """Kernel computed without any optional library by the pristine twin."""
    pols, phys, calc = st
    pols = [list(p) for p in pols]
    piston = integral and pols == [[0, 0]]
    if piston:                               # the accelerated form integrates, the exact equation has no accelerated form
        pols = [[0, 0], [0, 4]]
        a = amplitude(phys)
        phys = dict(phys, a=[float(np.ravel(a)[0]), 0.0], type="float")
    key = json.dumps([id(z2), pols, phys, calc, normalized])
    if key not in _memo:
        if len(_memo) > 3000:
            _memo.clear()
        z2.reset()
        _memo[key] = np.array(build(z2, pols, phys, calc).calculate_psf_kernel(suppress_warnings=True, normalized=normalized, accelerated=False))
    return _memo[key]


def supported(pols):
    return all(n <= 10 or abs(m) in (n, n - 2) for m, n in pols)


def compare(res, k, ref, where, rtol):
    if np.shape(k) != ref.shape:
        raise Violation("wrong-kernel", f"{where}: kernel of shape {np.shape(k)} instead of {ref.shape}")
    d = np.max(np.abs(np.asarray(k) - ref))
    if not d <= rtol*np.max(np.abs(ref)):
        raise Violation("wrong-kernel", f"{where}: kernel differs by {d:.3g} from the one computed without optional libraries")
    res.count("kernels-compared")


def run(case, res):
    mode = case["numba"]
    ch = chooser_for(case)
    Switch.fail_at = Switch.job_fail = None
    Switch.order = ch
    z2 = env.load(cpu=8, numba="absent")
    hidden = {k: v for k, v in sys.modules.items() if k.split(".")[0] in ("numba", "joblib")}
    try:
        try:
            with env.quiet():
                z = env.load(cpu=4, numba=mode, joblib=case["joblib"])
        except Exception as e:
            raise Violation("import-fails", f"package cannot be imported with numba: {mode}, joblib: {case['joblib']}: {type(e).__name__}: {e}")
        if mode == "pyjit" and any(o[0] == "stop" for o in case["ops"]):
            instrument(z, env.is_subject)
        if mode not in ("pyjit", "present"):
            res.count(f"fault:numba-{mode}")
        if case["joblib"] != "asis":
            res.count(f"fault:joblib-{case['joblib']}")
        with env.quiet() as q:
            _run(case, res, z, z2, ch, q)
        res.nontrivial = mode != "present" or case["joblib"] != "asis" or any(o[0] in ("vanish", "warn") for o in case["ops"])
    finally:
        Switch.order = None
        for k in [k for k in sys.modules if k.split(".")[0] in ("numba", "joblib") and k not in hidden]:
            del sys.modules[k]
        sys.modules.update(hidden)
        z2.reset()
        res.choices = ch.record


def _run(case, res, z, z2, ch, q):
    mode = case["numba"]
    objs, sts, held = [], [], []
    working = mode.split("/")[0] in ("pyjit", "lazyfail", "present")

    def settled(i, where):
        d = K.public(objs[i]); e = K.public(build(z, *sts[i]))
        if d != e:
            raise Violation("state-changed", f"{where}: {K.diff(e, d)}")

    def computed(i, k, norm, acc, where):
        uses = acc is not False
        rtol = 1e-9 if not (uses and working) else 1e-7
        try:
            ref = reference(z2, sts[i], norm, False)
            compare(res, k, ref, where, rtol)
        except Violation:
            if not (uses and working and [list(p) for p in sts[i][0]] == [[0, 0]]):
                raise
            compare(res, k, reference(z2, sts[i], norm, True), where, rtol)
        held.append((k, np.array(k)))

    def kernel(i, where, norm, acc, suppress=True, verbose=False):
        try:
            k = objs[i].calculate_psf_kernel(suppress_warnings=suppress, normalized=norm, verbose_info=verbose, accelerated=acc)
        except ValueError as e:
            if acc is not False and working and not supported(sts[i][0]):
                res.note("unsupported", where)
                res.count("unsupported-orders-refused")
                return
            raise Violation("fails", f"{where}: {type(e).__name__}: {e}")
        except Exception as e:
            raise Violation("fails", f"{where}: {type(e).__name__}: {e}")
        computed(i, k, norm, acc, where)
        if objs[i].kernel is not k and not env.arr_eq(objs[i].kernel, k):
            raise Violation("state-changed", f"{where}: attribute kernel isn't the returned one")

    for n_op, op in enumerate(case["ops"]):
        where = f"operation {n_op} {json.dumps(op)} with numba: {mode}"
        res.note("op", n_op, *op)
        if op[0] == "new":
            sts.append([op[1], op[2], op[3]])
            objs.append(build(z, *op[1:]))
        elif op[0] == "kernel":
            kernel(op[1], where, op[2], op[3], op[4], op[5])
            settled(op[1], where)
        elif op[0] == "phys":
            p = op[2]
            objs[op[1]].set_physical_props(p["NA"], p["wl"], amplitude(p), p["px"])
            st = sts[op[1]]
            objs[op[1]].set_calculation_props(*st[2])
            sts[op[1]] = [st[0], p, st[2]]
        elif op[0] == "calc":
            objs[op[1]].set_calculation_props(*op[2])
            sts[op[1]] = [sts[op[1]][0], sts[op[1]][1], op[2]]
        elif op[0] == "force":
            force(z, res, where, op[1], working)
        elif op[0] == "vanish":
            res.count("fault:library-vanishes")
            for k in [k for k in sys.modules if k.split(".")[0] in ("numba", "joblib")]:
                if k in ("numba", "joblib"):
                    continue
            sys.modules["numba"] = None
            sys.modules["joblib"] = None
        elif op[0] == "joblib":
            parallel(z, z2, res, op, where, case["joblib"])
        elif op[0] == "fails":
            _, i, exc, at, norm = op
            Switch.exc, Switch.fail_at = exc, at
            try:
                k = objs[i].calculate_psf_kernel(suppress_warnings=True, normalized=norm, accelerated=True)
            except Exception as e:
                fired = Switch.fail_at is None
                Switch.fail_at = None
                if not fired and not (isinstance(e, ValueError) and not supported(sts[i][0])):
                    raise Violation("fails", f"{where}: {type(e).__name__}: {e}")
                res.count("fault:compiled-function-fails", int(fired))
            else:
                if Switch.fail_at is None:
                    res.count("fault:compiled-function-fails")
                Switch.fail_at = None
                computed(i, k, norm, True, where)
            settled(i, where)
            for acc in ACC:
                kernel(i, where + f", next with accelerated={acc}", True, acc)
        elif op[0] == "stop":
            _, i, exc, acc = op
            go = lambda o: (lambda: o.calculate_psf_kernel(suppress_warnings=True, accelerated=acc))
            st = [sts[i][0], sts[i][1], [3, 20, 36]]
            objs[i].set_calculation_props(3, 20, 36)
            sts[i] = st
            if mode == "pyjit":
                fired, out, w = interrupted(ch, go(build(z, *st)), go(objs[i]), exc)
                res.note("stop", exc, w, out[0])
                res.count(f"fault:{exc}", int(fired))
                if out[0] == "ok":
                    computed(i, out[1], True, acc, where)
                elif not fired and not (isinstance(out[1], ValueError) and not supported(st[0])):
                    raise out[1]
            settled(i, where)
            for a in ACC:
                kernel(i, where + f", next with accelerated={a}", True, a)
        elif op[0] == "warn":
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                try:
                    objs[op[1]].calculate_psf_kernel(accelerated=op[2])
                except (UserWarning, ValueError):
                    res.count("fault:warnings-are-errors")
            kernel(op[1], where + ", afterwards", True, op[2])
            settled(op[1], where)
    for k, c in held:
        if not env.arr_eq(k, c):
            raise Violation("returned-array-altered", "a kernel returned earlier changed later")


def force(z, res, where, verbose, working):
    try:
        out = z.pkg.force_get_psf_compilation(verbose)
    except Exception as e:
        raise Violation("fails", f"{where}: {type(e).__name__}: {e}")
    if out is None:
        return
    for o in out:
        k = np.array(o.kernel)
        n = np.array(o.calculate_psf_kernel(suppress_warnings=True, accelerated=None))
        compare(res, k, n, where + ", object used for the compilation", 1e-9)
        if k.shape == (3, 3):
            compare(res, k, np.array(o.calculate_psf_kernel(suppress_warnings=True, accelerated=False)), where + ", object used for the compilation", 1e-7)


def parallel(z, z2, res, op, where, mode):
    f = getattr(z.calc_psfs, "get_psf_kernel", None)
    if f is None:
        return
    _, mn, p, calc, norm, fail = op
    kw = dict(len2pixels=p["px"], alpha=float(np.ravel(p["a"])[0]), wavelength=p["wl"], NA=p["NA"], n_int_r_points=calc[1], n_int_phi_points=calc[2],
              normalize_values=norm, kernel_size=calc[0], suppress_warns=True, test_vectorized=True)
    Switch.job_fail = fail if mode == "jobfail" else None
    armed = Switch.job_fail is not None
    try:
        k = f(z.ZernPol(m=mn[0], n=mn[1]), test_parallel=True, **kw)
    except TypeError as e:
        if "unexpected keyword" in str(e):
            return
        raise Violation("fails", f"{where}: {type(e).__name__}: {e}")
    except Exception as e:
        fired = armed and Switch.job_fail is None
        Switch.job_fail = None
        if not fired:
            raise Violation("fails", f"{where}: {type(e).__name__}: {e}")
        res.count("fault:parallel-library-fails")
        k = f(z.ZernPol(m=mn[0], n=mn[1]), test_parallel=True, **kw)
    Switch.job_fail = None
    z2.reset()
    ref = z2.calc_psfs.get_psf_kernel(z2.ZernPol(m=mn[0], n=mn[1]), **kw)
    compare(res, k, np.array(ref), where + f" with joblib: {mode}", 1e-9)
    if mode == "fakejob" and Switch.jobs:
        res.count("parallel-tasks-shuffled", Switch.jobs)
        Switch.jobs = 0

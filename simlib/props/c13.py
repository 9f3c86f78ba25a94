"""C13: concurrent callers working on their own objects do not disturb each other."""
import os
import random
import threading
import warnings

import numpy as np

from .. import env, fssim
from ..choice import chooser_for
from ..core import Violation
from ..thrsim import ThreadSim, instrument, loc
from . import _psf as K

ID = "C13"
LEVEL = "exploration"
RULE = "run counts as non-trivial when a thread was preempted inside the package, or when a caller wrote into what it gave or got between two operations; distinct = distinct event-sequence hash"
QUICK_RUNS, THOROUGH_RUNS = 3000, 90000

POLS = [[0, 0], [-1, 1], [1, 1], [0, 2], [-2, 2], [2, 2], [1, 3], [-3, 3], [0, 4], [2, 4], [-4, 4], [1, 5], [0, 6], [2, 8], [1, 9], [-4, 10], [3, 11], [0, 12],
        [-1, 13], [2, 14], [-5, 15], [0, 16], [1, 17]]
DTYPES = ["float64", "float64", "float32", "int32", "uint8", "int16"]
FORMS = ["C", "C", "F", "strided", "readonly", "reversed"]
ANGLES = ["", "", "", "/neg", "/over", "/wide", "/edge", "/odd"]     # where the angles lie: also outside of [0, 2*pi] (allowed with a warning)
STRATS = [["pct", 1, 300], ["pct", 2, 600], ["pct", 3, 3000], ["pct", 4, 20000], ["prob", 4], ["prob", 20], ["prob", 120], ["spot", 20]]


def setup():
    for c in (4, 8):
        instrument(env.load(cpu=c, numba="absent"), env.is_subject)
    import matplotlib.figure  # noqa


def gen_pols(rng, n, order=17):
    return rng.sample([p for p in POLS if p[1] <= order], n)


def amps(rng, n):
    return [round(rng.uniform(-1.4, 1.4), 3) for _ in range(n)]


def coord_form(rng):
    return rng.choice(FORMS + ["list", "f32", "int"]) + rng.choice(ANGLES)


def gen_op(rng):
    kind = rng.choice(["value", "value", "value", "sum", "sum", "surf", "coords", "phases", "fit", "fit", "fit", "fitv", "gen", "idx", "psf", "psf",
                       "conv", "conv", "crop", "save", "rand", "plot", "settings"])
    form = rng.choice(FORMS)
    if kind == "value":
        return [kind, rng.choice(POLS), rng.choice(["polynomial_value", "radial", "radial_dr", "triangular", "triangular_dtheta", "normf"]), rng.choice([0, 1, 3, 9]), coord_form(rng)]
    if kind in ("sum", "surf"):
        n = rng.choice([1, 2, 3])
        a = amps(rng, n)
        if rng.random() < 0.2:
            a[-1] = 0.0
        return [kind, gen_pols(rng, n, 12), a, rng.choice(["list", "tuple", "array"]), coord_form(rng), rng.random() < 0.5, rng.choice([2, 3, 5])]
    if kind == "coords":
        return [kind, rng.random() < 0.5, rng.choice([3, 5, 8])]
    if kind in ("phases", "fit"):
        n = rng.choice([1, 2, 3, 4])
        w = rng.choice([5, 7, 8, 9, 11])
        h = w if rng.random() < 0.7 else rng.choice([5, 6, 7, 9])
        op = [kind, gen_pols(rng, n, 4), amps(rng, n), w, h]
        if kind == "fit":
            op += [rng.choice([1.0, 1.0, 0.8, 0.6]), rng.random() < 0.5, rng.random() < 0.5, rng.choice(DTYPES), form, rng.choice([4, 9])]
        return op
    if kind == "fitv":
        n = rng.choice([1, 2, 3])
        return [kind, gen_pols(rng, n, 4), amps(rng, n), rng.choice([[6, 6], [4, 7], [9, 9]]), rng.choice(["float64", "float32"]), coord_form(rng).replace("list", "C")]
    if kind == "gen":
        return [kind, rng.choice([0, 1, 2, 3, 5])]
    if kind == "idx":
        return [kind, rng.randrange(0, 40)]
    if kind == "psf":
        p = K.gen_pols(rng, 0.35)
        c = [1 if len(p) > 1 and rng.random() < 0.8 else 3, 20, rng.choice([36, 36, 37])]        # size 1: one point of the 3x3 kernel
        return [kind, p, K.gen_phys(rng, len(p)), c, rng.random() < 0.7, rng.choice([None, "uint8", "float64"]), rng.random() < 0.3]
    if kind == "conv":
        return [kind, rng.choice([3, 5]), rng.choice([[6, 6], [5, 9], [12, 4]]), rng.choice(DTYPES), form, rng.random() < 0.5, rng.randrange(1 << 20)]
    if kind == "crop":
        return [kind, rng.choice([5, 7, 9]), rng.choice([0.01, 0.05, 0.3]), rng.randrange(1 << 20)]
    if kind == "save":
        p = K.gen_pols(rng, 0.4)
        return [kind, p, K.gen_phys(rng, len(p)), [3, rng.choice([20, 40]), rng.choice([36, 50])], rng.randrange(1 << 20)]
    if kind == "rand":
        return [kind, rng.choice([1, 2, 3]), rng.choice([5, 7]), rng.choice([5, 8]), rng.randrange(1 << 20)]
    if kind == "plot":
        n = rng.choice([1, 2])
        return [kind, gen_pols(rng, n, 8), amps(rng, n)]
    p = K.gen_pols(rng, 0.4)
    return [kind, p, [[rng.choice(["phys", "phys!", "calc", "calc!"]), K.gen_phys(rng, len(p)), K.gen_calc(rng)] for _ in range(rng.randrange(1, 4))]]


def sibling(rng, op):
    """The same kind of work on data of the same shape, with other values."""
    op = [list(x) if isinstance(x, list) else x for x in op]
    kind = op[0]
    if kind in ("sum", "surf", "phases", "fit", "fitv", "plot"):
        op[2] = amps(rng, len(op[2]))
        if rng.random() < 0.5:
            op[1] = gen_pols(rng, len(op[1]), 4)
    elif kind == "value" and rng.random() < 0.7:
        op[1] = rng.choice(POLS)
    elif kind == "psf":
        op[2] = K.gen_phys(rng, len(op[1]))
        if rng.random() < 0.5:
            op[4] = not op[4]
    elif kind in ("conv", "save", "crop", "rand"):
        op[-1] = rng.randrange(1 << 20)
    return op


def gen(rng, idx):
    n = rng.choice([1, 2, 2, 2, 3, 3, 4])
    r = rng.random()
    if r < 0.35:
        first = gen_op(rng)
        make = lambda: sibling(rng, first) if rng.random() < 0.85 else gen_op(rng)
    elif r < 0.55:                                              # the same kind of work everywhere
        kind = gen_op(rng)[0]
        def one():
            while True:
                o = gen_op(rng)
                if o[0] == kind:
                    return o
        make = lambda: one() if rng.random() < 0.8 else gen_op(rng)
    else:
        make = lambda: gen_op(rng)
    case = {"threads": [[make() for _ in range(rng.randrange(1, 4 if n > 1 else 7))] for _ in range(n)], "strategy": rng.choice(STRATS), "faults": [],
            "scribble": rng.random() < 0.4, "twice": rng.random() < 0.15, "strike": []}
    if n > 1 and rng.random() < 0.15:
        case["strike"] = [[rng.randrange(n), rng.choice([rng.randrange(1, 40), rng.randrange(1, 2000)]), "MemoryError"]]
    return case


def directed():
    base = {"faults": [], "scribble": False, "twice": False, "strike": []}
    a = ["fit", [[0, 0], [0, 2], [1, 1]], [0.5, -0.3, 0.7], 9, 9, 1.0, False, True, "float64", "C", 9]
    b = ["fit", [[2, 2], [1, 3]], [1.1, -0.6], 7, 8, 0.8, False, True, "int16", "F", 9]
    psf = lambda *p: ["psf", list(p), {"NA": 0.1, "wl": 0.5, "px": 1.0, "a": 0.17 if len(p) == 1 else [0.17, -0.1]}, [1 if len(p) > 1 else 3, 20, 36], True, "uint8", False]
    for strat in (["prob", 20], ["pct", 3, 3000]):
        yield dict(base, seed=1, strategy=strat, threads=[[a], [b]])
        yield dict(base, seed=2, strategy=strat, threads=[[psf(1, 4)], [psf(3, 5)]])
        yield dict(base, seed=3, strategy=strat, threads=[[psf(8)], [psf(4)]])
        yield dict(base, seed=4, strategy=strat, threads=[[psf(0)], [psf(0)]])
        yield dict(base, seed=5, strategy=strat, threads=[[["sum", [[2, 2], [1, 3]], [0.4, -1.0], "list", "C", True, 5]], [["sum", [[0, 4], [1, 1]], [0.9, 1.0], "array", "C", True, 5]]])
        yield dict(base, seed=6, strategy=strat, threads=[[["phases", [[2, 2], [1, 3]], [0.4, -1.0], 9, 9]], [["phases", [[0, 4]], [0.9], 7, 11]]])
        yield dict(base, seed=7, strategy=strat, threads=[[["rand", 3, 7, 7, 5]], [["rand", 2, 5, 8, 6]]])


# ------------------------------------------------------------------------------------------------------ operations
def dress(a, form):
    """The same values in another memory layout."""
    a = np.array(a)
    form = form.split("/")[0]
    if a.ndim == 0:
        return a
    if form == "list":
        return a.tolist()
    if form == "f32":
        return a.astype(np.float32)
    if form == "int":
        return a.astype(np.int64)
    if form == "F":
        return np.asfortranarray(a)
    if form == "strided":
        b = np.zeros(tuple(2*s for s in a.shape), a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if form == "reversed":
        return a[::-1].copy()[::-1]
    a = a.copy()
    if form == "readonly":
        a.setflags(write=False)
    return a


def turn(t, form):
    """The angles in another range."""
    t = np.array(t, dtype=float)
    where = (form + "/").split("/")[1]
    if where == "neg":
        t = t - 3.5
    elif where == "over":
        t = t*0.9 + 5.0
    elif where == "wide":
        t = t*3.0 - 6.0
    elif where == "edge" and t.size:
        t[0], t[-1] = 0.0, 2.0*np.pi
    elif where == "odd" and t.size:
        t[t.size//2] = -1e-9
    return t


class apart:
    """No exception strikes the task while the harness looks at its data."""

    def __init__(self, task):
        self.task = task

    def __enter__(self):
        if self.task is not None:
            self.task.inside += 1

    def __exit__(self, *a):
        if self.task is not None:
            self.task.inside -= 1


class Inputs:
    """Everything one operation hands over, with a copy of its content."""

    def __init__(self, z, task=None):
        self.z, self.items, self.task = z, [], task

    def __call__(self, v):
        with apart(self.task):
            self.items.append((v, self.copy(v)))
        return v

    def copy(self, v):
        if isinstance(v, np.ndarray):
            return v.copy()
        if isinstance(v, (list, tuple)):
            return [self.copy(x) for x in v]
        if isinstance(v, self.z.ZernPol):
            return describe_pol(v)
        return v

    def same(self, v, c):
        if isinstance(v, np.ndarray):
            return env.arr_eq(v, c)
        if isinstance(v, (list, tuple)):
            return len(v) == len(c) and all(self.same(a, b) for a, b in zip(v, c))
        if isinstance(v, self.z.ZernPol):
            return describe_pol(v) == c
        return v == c

    def check(self, what):
        with apart(self.task):
            self._check(what)

    def _check(self, what):
        for v, c in self.items:
            if not self.same(v, c):
                raise Violation("input-altered", f"{what} altered an argument: {str(c)[:120]} -> {str(v)[:120]}")

    def arrays(self):
        for v, _ in self.items:
            if isinstance(v, np.ndarray) and v.ndim:
                yield v

    def scribble(self):
        for v, _ in self.items:
            if isinstance(v, np.ndarray) and v.flags.writeable and v.ndim:
                v[...] = 3
            elif isinstance(v, list):
                v[:] = [0.123]*len(v)
        self.items = []


def describe_pol(p):
    return (p.get_mn_orders(), p.get_indices(), p.get_polynomial_name(short=True), str(p))


RS, TS = np.array([0.0, 0.21, 0.37, 0.5, 0.73, 0.88, 0.9, 0.97, 1.0]), np.array([0.0, 0.3, 1.1, 2.5, 3.6, 4.2, 5.0, 5.9, 6.28])


def perform(z, op, inp, folder):
    """Carries out one operation; returns (list of results, arrays the caller may write into)."""
    kind = op[0]
    P = lambda ps: [z.ZernPol(m=m, n=n) for m, n in ps]
    if kind == "value":
        _, p, method, n, form = op
        pol = inp(z.ZernPol(m=p[0], n=p[1]))
        r, th = (0.37, 0.6) if n == 0 else (inp(dress(RS[:n], form)), inp(dress(turn(TS[:n], form), form)))
        f = getattr(pol, method)
        v = f() if method == "normf" else f(r, th) if method == "polynomial_value" else f(r) if method.startswith("radial") else f(th)
        return [v]
    if kind in ("sum", "surf"):
        _, ps, a, seq, form, surface, n = op
        pols = inp({"list": list, "tuple": tuple, "array": list}[seq](P(ps)))
        a = inp({"list": list, "tuple": tuple, "array": np.array}[seq](a))
        if kind == "sum":
            r, th = inp(dress(RS[:n], form)), inp(dress(turn(TS[:(n + 1 if surface else n)], form), form))
            return [z.ZernPol.sum_zernikes(a, pols, r, th, get_surface=surface)]
        if surface:
            return list(z.ZernPol.gen_zernikes_surface(a, pols, equal_n_coordinates=True, n_points=n + 2))
        return list(z.ZernPol.gen_zernikes_surface(a, pols, r_step=0.4, theta_rad_step=1.3))
    if kind == "coords":
        if op[1]:
            return list(z.ZernPol.gen_equal_polar_mesh(op[2]))
        return list(z.ZernPol.gen_polar_coordinates(1.0/op[2]/2, 6.0/op[2]))
    if kind == "phases":
        _, ps, a, w, h = op
        return [z.zernikepol.generate_phases_image(inp(tuple(P(ps))), inp(tuple(a)), w, h)]
    if kind == "fit":
        _, ps, a, w, h, crop, strict, back, dtype, form, digits = op
        rng = np.random.default_rng(len(ps)*100 + w)
        img = sum(c*rng.normal(size=(h, w)) for c in a)
        img = (img if dtype.startswith("float") else img*40 + 60).clip(-1e4 if dtype != "uint8" else 0, 250).astype(dtype)
        img = inp(dress(img, form))
        pols = inp(tuple(P(ps)))
        c, cropped = z.zernikepol.fit_polynomials(img, pols, crop_radius=crop, suppress_warnings=w % 2 == 0, strict_circle_border=strict, round_digits=digits,
                                                  return_cropped_image=back)
        return [c, cropped]
    if kind == "fitv":
        _, ps, a, (n, m), dtype, form = op
        rng = np.random.default_rng(n*10 + m)
        r, th = inp(dress(rng.uniform(0, 1, n), form)), inp(dress(turn(rng.uniform(0, 6.2, m), form), form))
        v = inp(dress(rng.normal(size=n if n == m else n*m).astype(dtype), form if not form.startswith("int") else "C"))
        return [z.zernikepol.fit_polynomials_vectors(inp(tuple(P(ps))), v, r, th, round_digits=9)]
    if kind == "gen":
        return [[describe_pol(p) for p in z.zernikepol.generate_polynomials(op[1])]]
    if kind == "idx":
        i = op[1]
        p = z.ZernPol(osa=i)
        m, n = p.get_mn_orders()
        q = z.ZernPol(azimuthal_order=m, radial_order=n)
        return [describe_pol(p), p == q, p > q, z.ZernPol.osa2noll(i), z.ZernPol.noll2osa(i + 1), z.ZernPol.osa2fringe(i), z.ZernPol.fringe2osa(i + 1),
                z.ZernPol.get_osa_index(m, n), z.ZernPol.get_noll_index(m, n), z.ZernPol.get_fringe_index(m, n), z.ZernPol.index2orders(noll_index=i + 1)]
    if kind == "psf":
        _, ps, phys, calc, norm, conv, again = op
        pols = [z.ZernPol(osa=i) for i in ps]
        obj = z.ZernPSF(inp(pols[0] if len(ps) == 1 else pols))
        a = phys["a"]
        obj.set_physical_props(phys["NA"], phys["wl"], inp(list(a)) if isinstance(a, list) else a, phys["px"])
        obj.set_calculation_props(max(3, calc[0]), *calc[1:])
        obj.kernel_size = calc[0]
        k = obj.calculate_psf_kernel(suppress_warnings=calc[0] % 2 == 1, normalized=norm, accelerated=False)
        out = [np.array(k)]
        if again:
            out += [np.array(obj.calculate_psf_kernel(suppress_warnings=True, normalized=not norm, accelerated=False))]
        if conv:
            img = inp((np.arange(35).reshape(5, 7)*7 % 251).astype(conv))
            out.append(obj.convolute_img(img, scale2original=norm))
        return out + [sorted(K.public(obj).items(), key=str)]
    if kind == "conv":
        _, n, shape, dtype, form, scale, seed = op
        rng = np.random.default_rng(seed)
        obj = z.ZernPSF(z.ZernPol(osa=4))
        obj.kernel = inp(rng.uniform(0, 1, (n, n)))
        obj.kernel_size = n
        img = inp(dress(rng.uniform(0, 240, shape).astype(dtype), form))
        return [obj.convolute_img(img, scale2original=scale)]
    if kind == "crop":
        _, n, part, seed = op
        rng = np.random.default_rng(seed)
        x = np.abs(np.arange(n) - n//2)
        k = inp(np.exp(-np.add.outer(x**2, x**2)*rng.uniform(0.1, 1.0)))
        obj = z.ZernPSF(z.ZernPol(osa=4))
        obj.kernel, obj.kernel_size = k, n
        obj.crop_kernel(part)
        return [np.array(obj.kernel), obj.kernel_size]
    if kind == "save":
        _, ps, phys, calc, seed = op
        obj = K.make_obj(z, ps)
        K.set_phys(obj, phys)
        obj.set_calculation_props(*calc)
        obj.kernel = inp(np.random.default_rng(seed).uniform(0, 1, (3, 3)))
        before = set(os.listdir(folder))
        obj.save_json(abs_path=folder, overwrite=True)
        name, = set(os.listdir(folder)) - before
        other = z.ZernPSF(z.ZernPol(osa=2))
        other.read_json(os.path.join(folder, name))
        os.unlink(os.path.join(folder, name))
        return [name, np.array(other.kernel), sorted(K.public(other).items(), key=str)]
    if kind == "rand":
        _, order, w, h, seed = op
        random.seed(seed)
        img, a, pols = z.zernikepol.generate_random_phases(order, w, h)
        ref = z.zernikepol.generate_phases_image(pols, tuple(a), w, h)
        ok = bool(np.allclose(img, ref, rtol=1e-9, atol=1e-12)) and float(np.max(np.abs(a))) >= 0.08 and float(np.max(np.abs(a))) <= 1.5
        return [[describe_pol(p) for p in pols], img.shape, len(a), ok]
    if kind == "plot":
        import matplotlib.figure
        fig = matplotlib.figure.Figure()
        _, ps, a = op
        s = z.ZernPol.gen_zernikes_surface(inp(list(a)), inp(P(ps)), equal_n_coordinates=True, n_points=6)
        for x in s:
            inp(x)
        f = z.ZernPol.plot_sum_zernikes_on_fig(fig, use_defaults=False, zernikes_sum_surface=s, show_range=False)
        arr = [np.array(c.get_array()) for ax in f.axes for c in ax.collections if c.get_array() is not None]
        return arr[:1]
    assert kind == "settings", kind
    _, ps, calls = op
    obj = K.make_obj(z, ps)
    out = []
    for how, phys, calc in calls:
        try:
            if how.startswith("phys"):
                a = phys["a"]
                wl = -1.0 if how.endswith("!") else phys["wl"]
                obj.set_physical_props(phys["NA"], wl, inp(list(a)) if isinstance(a, list) else a, phys["px"])
            else:
                obj.set_calculation_props(calc[0], calc[1], 10 if how.endswith("!") else calc[2])
        except ValueError as e:
            out.append(str(e))
        out.append(sorted(K.public(obj).items(), key=str))
    return out


def copy(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return [copy(x) for x in v]
    return v


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind in "iub":
            return bool(np.all(np.abs(a.astype(float) - b.astype(float)) <= 1))
        return bool(np.allclose(a, b, rtol=1e-9, atol=2e-9, equal_nan=True))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-9*(1 + abs(a)) or a != a and b != b
    return bool(a == b)


def flat(v):
    for x in v:
        if isinstance(x, np.ndarray) and x.ndim:
            yield x
        elif isinstance(x, list):
            yield from flat(x)


class Log:
    def __init__(self, res):
        self.items, self.res = [], res

    def do(self, z, op, folder, where, scribble, task=None):
        inp = Inputs(z, task)
        try:
            out = perform(z, op, inp, folder)
        except MemoryError:
            if task is None:
                raise
            inp.check(f"{op[0]} ({where})")
            for f in os.listdir(folder):
                os.unlink(os.path.join(folder, f))
            return
        except (ValueError, TypeError, np.linalg.LinAlgError) as e:
            out = [type(e).__name__, str(e)]
        inp.check(f"{op[0]} ({where})")
        if scribble is not False:
            for x in flat(out):
                for y in inp.arrays():
                    if np.shares_memory(x, y) and op[0] not in ("plot",):
                        raise Violation("result-shares-memory", f"{op[0]} ({where}) returned memory of an argument")
        it = [op, copy(out), out, inp, where]
        self.items.append(it)
        if scribble:
            for x in flat(out):
                if x.flags.writeable:
                    x[...] = 7
            it[2] = None
            inp.scribble()

    def unchanged(self):
        for i, (op, kept, out, inp, where) in enumerate(self.items):
            inp.check(f"an operation after {op[0]} ({where})")
            if out is None:
                continue
            if not _bytes_same(kept, out):
                raise Violation("returned-array-altered", f"the result of {op[0]} ({where}) changed later")
            for op2, _, out2, _, where2 in self.items[:i]:
                for x in flat(out):
                    for y in flat(out2 or []):
                        if x is not y and np.may_share_memory(x, y) and np.shares_memory(x, y) or x is y:
                            raise Violation("result-shares-memory", f"results of {op[0]} ({where}) and {op2[0]} ({where2}) share memory")


def _bytes_same(a, b):
    return len(a) == len(b) and all(env.arr_eq(x, y) for x, y in zip(flat(a), flat(b)))


def run(case, res):
    z2 = env.load(cpu=8, numba="absent")
    z = env.load(cpu=4, numba="absent")
    root = fssim.scratch("c13")
    state = random.getstate()
    try:
        with env.quiet():
            _run(case, res, z, z2, root)
    finally:
        random.setstate(state)
        fssim.remove(root)
        z2.reset()


_alone = {}


def alone(z2, ops, folder):
    """Results of a list of operations executed on their own in a pristine package."""
    key = repr(ops)
    if key not in _alone:
        if len(_alone) > 300:
            _alone.clear()
        z2.reset()
        _alone[key] = one_by_one(z2, ops, folder)
    return _alone[key]


def one_by_one(z2, ops, folder):
    log = Log(None)
    for op in ops:
        log.do(z2, op, folder, "alone", False)
    return [it[1] for it in log.items]


def _run(case, res, z, z2, root):
    ch = chooser_for(case)
    threads = case["threads"]
    folders = []
    for i in range(len(threads)):
        folders.append(os.path.join(root, f"t{i}"))
        os.mkdir(folders[-1])
    refs = [alone(z2, ops, f) for ops, f in zip(threads, folders)]
    logs = [Log(res) for _ in threads]
    struck = {t for t, *_ in case["strike"]}
    rounds = 2 if case["twice"] else 1

    def body(i):
        def go():
            for k in range(rounds):
                for n, op in enumerate(threads[i]):
                    before = len(logs[i].items)
                    logs[i].do(z, op, folders[i], f"thread {i}, operation {n}", case["scribble"] or None, tasks[i] if i in struck else None)
                    if len(logs[i].items) == before:
                        logs[i].items.append(None)
        return go
    tasks = []
    if len(threads) == 1:
        body(0)()
        res.nontrivial = case["scribble"]
        switches = 0
    else:
        sim = ThreadSim(ch, res, case["strategy"])
        tasks = [sim.add(f"T{i}", body(i)) for i in range(len(threads))]
        for t, n, kind in case["strike"]:
            tasks[t].strike = (n, MemoryError)
        why = sim.run()
        for t in tasks:
            if t.error is not None:
                raise t.error
        if why != "done":
            raise Violation("never-returns", f"threads ended by {why}")
        switches = sim.switches
        res.steps += sum(t.hits for t in tasks)
        res.nontrivial = switches > 0
    res.choices = ch.record
    if case["scribble"]:
        res.count("fault:caller-writes-into-arrays")
    res.count("switches", switches)
    for i, log in enumerate(logs):
        for n, it in enumerate(log.items):
            if it is None:
                res.count("struck-operations")
                continue
            ref = refs[i][n % len(threads[i])]
            if not same(it[1], ref):
                raise Violation("differs-from-alone", f"{it[0]} ({it[4]} of {len(threads)}): {short(it[1], ref)}")
            res.count("results-compared")
            res.count(f"op:{it[0][0]}")
            res.note(it[0][0], it[4])
        log.items = [it for it in log.items if it is not None]
        log.unchanged()
    every = Log(res)
    every.items = [it for log in logs for it in log.items]
    every.unchanged()
    # everything once more in one thread: the concurrent phase left no trace
    for i, ops in enumerate(threads):
        log = Log(res)
        for n, op in enumerate(ops):
            log.do(z, op, folders[i], "afterwards", None)
            if not same(log.items[-1][1], refs[i][n]):
                raise Violation("differs-afterwards", f"{op} repeated after the threads: {short(log.items[-1][1], refs[i][n])}")
        break


def short(a, b):
    for x, y in zip(a, b):
        if not same(x, y):
            return f"{str(x)[:200]} instead of {str(y)[:200]}"
    return f"{len(a)} results instead of {len(b)}"

"""C12: settings calls are all-or-nothing."""
import json
import os
import sys
import warnings

import numpy as np

from .. import env, fssim, procsim
from ..core import HarnessError, Violation
from ..thrsim import StackRoom, instrument, interrupted
from . import _psf as K
from . import _save as S

ID = "C12"
LEVEL = "exploration"
RULE = "run counts as non-trivial when at least one settings call raised; distinct = distinct event-sequence hash"
QUICK_RUNS, THOROUGH_RUNS = 4000, 150000

PHYS_HOW = ["NA-", "NA+", "NA0", "NAnan", "wl-", "wl0", "wlnan", "px0", "px-", "px+", "pxnan", "pxinf", "count+", "count-", "empty", "scalar-seq",
            "strNA", "strwl", "strpx", "stra", "strlist", "noneNA", "nonewl", "nonepx", "nonea", "nonelist", "missNA", "misswl", "missa", "misspx", "extra",
            "listNA", "listpx", "complexwl", "objecta", "nana", "infa", "hugea", "nested", "ragged", "dict", "set", "gen", "seq-len", "seq-get", "seq-iter",
            "seq-array", "seq-short", "num-cmp", "num-div", "num-float", "num-fmt", "arr0d", "arr2d", "boola", "arrobj"]
CALC_HOW = ["ks2", "ks0", "ks-", "ksnan", "r19", "r-", "phi35", "phi-", "strks", "strr", "strphi", "noneks", "noner", "nonephi", "missks", "missphi", "extra",
            "listks", "listphi", "num-ks", "num-r", "num-phi", "complexr", "inf-phi"]
ENVS = ["plain", "plain", "plain", "errors", "KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "stack", "stdout", "numeric"]
WARNY = ["hugea", "none"]


def setup():
    for c in (4, 8):
        instrument(env.load(cpu=c, numba="absent"), env.is_subject)


def gen(rng, idx):
    pols = K.gen_pols(rng, 0.45)
    n = len(pols)
    ops = []
    for _ in range(rng.randrange(1, 6)):
        e = rng.choice(ENVS)
        how = "ok" if e != "plain" and rng.random() < 0.75 or rng.random() < 0.15 else None
        if rng.random() < 0.65:
            p = K.gen_phys(rng, n, small=rng.random() < 0.9)
            if rng.random() < 0.1 and isinstance(p["a"], float):
                p["a"] *= 60                                     # warns
            elif rng.random() < 0.1 and n > 1:
                p["a"] = [x*60 for x in p["a"]]
            ops.append(["phys", p, how or rng.choice(PHYS_HOW), e, rng.randrange(1, 4)])
        else:
            ops.append(["calc", rng.choice([K.gen_calc(rng), K.gen_calc(rng), [4, 20, 36], [3, 501, 401], [27, 320, 300], [19, 20, 36]]),
                        how or rng.choice(CALC_HOW), e, rng.randrange(1, 4)])
    start = []
    if rng.random() < 0.85:
        start.append(["phys", K.gen_phys(rng, n)])
    if rng.random() < 0.8:
        start.append(["calc", K.gen_calc(rng, (3, 3, 5))])
    return {"pols": pols, "seq": rng.random() < 0.3, "start": start, "kernel": rng.random() < 0.5, "ops": ops, "faults": [], "then": rng.choice(["calc", "phys", "save", "kernel"]),
            "workers": rng.random() < 0.12}


def directed():
    for pols in ([4], [0], [1, 4]):
        a = 0.1 if len(pols) == 1 else [0.1, 0.05]
        a2 = 0.2 if len(pols) == 1 else [0.2, 0.1]
        base = {"pols": pols, "seq": False, "faults": [], "seed": 2, "kernel": True, "then": "kernel",
                "start": [["phys", {"NA": 0.1, "wl": 0.5, "px": 1.0, "a": a}], ["calc", [3, 20, 36]]]}
        for how in PHYS_HOW:
            yield dict(base, ops=[["phys", {"NA": 0.2, "wl": 0.75, "px": 0.7, "a": a2}, how, "plain", 1]])
        for how in CALC_HOW:
            yield dict(base, ops=[["calc", [5, 31, 45], how, "plain", 1]])
        big = 20.0 if len(pols) == 1 else [20.0, 0.1]
        yield dict(base, ops=[["phys", {"NA": 0.2, "wl": 0.75, "px": 0.7, "a": big}, "ok", "errors", 1]])
        yield dict(base, then="calc", start=[], ops=[["phys", {"NA": 0.2, "wl": 0.75, "px": 0.7, "a": big}, "ok", "errors", 1]])
        yield dict(base, start=base["start"][:1], ops=[["calc", [3, 25, 40], "ok", "errors", 1]])
        yield dict(base, ops=[["calc", [4, 25, 40], "ok", "stdout", 1]])
        yield dict(base, ops=[["calc", [5, 501, 401], "ok", "errors", 1]])
        yield dict(base, then="calc", start=[], ops=[["calc", [5, 25, 41], "ok", "errors", 1]])


class Boom(Exception):
    pass


class Num(float):
    """A number whose operations fail from the n-th on."""
    left = 0
    what = ""

    def _op(self, w):
        if self.what in (w, "*"):
            self.left -= 1
            if self.left < 0:
                raise Boom(w)

    def __lt__(self, o):
        self._op("cmp"); return float(self) < o

    def __gt__(self, o):
        self._op("cmp"); return float(self) > o

    def __le__(self, o):
        self._op("cmp"); return float(self) <= o

    def __ge__(self, o):
        self._op("cmp"); return float(self) >= o

    def __truediv__(self, o):
        self._op("div"); return float.__truediv__(self, o)

    def __rtruediv__(self, o):
        self._op("div"); return float.__rtruediv__(self, o)

    def __mod__(self, o):
        self._op("div"); return float.__mod__(self, o)

    def __format__(self, s):
        self._op("fmt"); return float.__format__(self, s)


class NotFloat:
    def __init__(self, v, n):
        self.v, self.left = v, n

    def __float__(self):
        self.left -= 1
        if self.left < 0:
            raise Boom("float")
        return self.v

    def __abs__(self):
        return abs(self.v)


class Seq:
    """A sequence that fails while it is read."""

    def __init__(self, v, what, n):
        self.v, self.what, self.left = v, what, n

    def _op(self, w):
        if w == self.what:
            self.left -= 1
            if self.left < 0:
                raise Boom(w)

    def __len__(self):
        self._op("len")
        return len(self.v)

    def __getitem__(self, i):
        self._op("get")
        if self.what == "short" and i >= 1:
            raise IndexError(i)
        return self.v[i]

    def __iter__(self):
        for x in self.v:
            self._op("iter")
            yield x

    def __array__(self, dtype=None, copy=None):
        self._op("array")
        return np.array(self.v, dtype)


def num(v, what, n):
    x = Num(v)
    x.what, x.left = what, n
    return x


def phys_args(p, how, k, n):
    """Keyword arguments and the plain values they mean."""
    a = p["a"]
    kw = dict(NA=p["NA"], wavelength=p["wl"], expansion_coeff=list(a) if isinstance(a, list) else a, pixel_physical_size=p["px"])
    v = list(a) if isinstance(a, list) else [a]
    many = n > 1
    key = {"NA": "NA", "wl": "wavelength", "px": "pixel_physical_size", "a": "expansion_coeff"}
    table = {"NA-": ("NA", -0.1), "NA+": ("NA", 1.9), "NA0": ("NA", 0.0), "NAnan": ("NA", float("nan")), "wl-": ("wl", -1.0), "wl0": ("wl", 0.0),
             "wlnan": ("wl", float("nan")), "px0": ("px", 0.0), "px-": ("px", -0.1), "px+": ("px", 1e4), "pxnan": ("px", float("nan")), "pxinf": ("px", float("inf")),
             "count+": ("a", v + [0.1]), "count-": ("a", v[:-1] if len(v) > 2 else v + [0.1, 0.2]), "empty": ("a", []), "scalar-seq": ("a", 0.1 if many else v + v),
             "strNA": ("NA", "0.1"), "strwl": ("wl", "0.5"), "strpx": ("px", "x"), "stra": ("a", "abc"), "strlist": ("a", ["a"]*n), "noneNA": ("NA", None),
             "nonewl": ("wl", None), "nonepx": ("px", None), "nonea": ("a", None), "nonelist": ("a", [None]*n), "listNA": ("NA", [0.1]), "listpx": ("px", [0.1, 0.2]),
             "complexwl": ("wl", 0.5 + 1j), "objecta": ("a", object()), "nana": ("a", [float("nan")]*n if many else float("nan")),
             "infa": ("a", [float("inf")]*n if many else float("inf")), "hugea": ("a", [300.0]*n if many else 300.0), "nested": ("a", [[0.1]]*n),
             "ragged": ("a", [[0.1, 0.2], [0.3]] + [[0.1]]*(n - 2) if many else [[0.1, 0.2]]), "dict": ("a", {i: 0.1 for i in range(n)}), "set": ("a", set(v[:1])),
             "gen": ("a", (x for x in v)), "arr0d": ("a", np.array(0.1)), "arr2d": ("a", np.full((n, 2), 0.1)), "boola": ("a", [True]*n if many else True),
             "arrobj": ("a", np.array([None]*n, dtype=object))}
    if how in table:
        w, x = table[how]
        kw[key[w]] = x
    elif how.startswith("miss"):
        kw.pop(key[how[4:]])
    elif how == "extra":
        kw["magnification"] = 3
    elif how.startswith("seq-"):
        kw["expansion_coeff"] = Seq(v, how[4:], k - 1)
    elif how in ("num-cmp", "num-div", "num-fmt"):
        w = ["NA", "wavelength", "pixel_physical_size"][k % 3]
        kw[w] = num(kw[w], how[4:], k - 1)
    elif how == "num-float":
        kw["expansion_coeff"] = [NotFloat(x, k - 1) for x in v] if many else NotFloat(v[0], k - 1)
    return kw


def calc_args(c, how, k):
    c = list(c)
    i = {"k": 0, "r": 1, "p": 2}
    table = {"ks2": (0, 2), "ks0": (0, 0), "ks-": (0, -3), "ksnan": (0, float("nan")), "r19": (1, 19), "r-": (1, -20), "phi35": (2, 35), "phi-": (2, -1),
             "strks": (0, "3"), "strr": (1, "20"), "strphi": (2, "36"), "noneks": (0, None), "noner": (1, None), "nonephi": (2, None), "listks": (0, [3]),
             "listphi": (2, [36]), "complexr": (1, 20j), "inf-phi": (2, float("nan"))}
    if how in table:
        c[table[how][0]] = table[how][1]
    elif how == "missks":
        return dict(n_integration_points_r=c[1], n_integration_points_phi=c[2])
    elif how == "missphi":
        return dict(kernel_size=c[0], n_integration_points_r=c[1])
    elif how.startswith("num-"):
        j = {"ks": 0, "r": 1, "phi": 2}[how[4:]]
        c[j] = num(c[j], ["cmp", "div", "*"][k - 1], k - 1)
    d = dict(kernel_size=c[0], n_integration_points_r=c[1], n_integration_points_phi=c[2])
    if how == "extra":
        d["verbose"] = True
    return d


class Broken:
    """Standard output whose reader went away."""

    def write(self, s):
        raise BrokenPipeError(32, "Broken pipe")

    def flush(self):
        pass


def disarm(v):
    for x in (v.values() if isinstance(v, dict) else v):
        if isinstance(x, (Num, Seq)):
            x.what = ""
        elif isinstance(x, NotFloat):
            x.left = 1 << 60
        elif isinstance(x, (list, tuple)):
            disarm(x)


def plain(v):
    """The value an accepted argument means."""
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, Seq):
        return [float(x) for x in v.v]
    if isinstance(v, NotFloat):
        return v.v
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, Num):
        return float.__float__(v)
    return v


def observe(obj, how, root, phys, w):
    """What a later call shows: warnings, prints, values, files."""
    out = []
    with env.quiet() as q:
        try:
            if how == "calc":
                obj.set_calculation_props(3, 21, 37)
            elif how == "phys":
                obj.set_physical_props(NA=phys["NA"], wavelength=phys["wl"], expansion_coeff=phys["a"], pixel_physical_size=phys["px"])
            elif how == "save":
                _, e = w.calm(lambda: obj.save_json(abs_path=root, overwrite=True))
                out.append(type(e).__name__)
                f = sorted(os.listdir(root))
                for x in f:
                    with open(os.path.join(root, x)) as h:
                        out.append([x, json.load(h)])
            elif obj.kernel_size <= 3 and obj.n_int_r_points <= 60:
                # default settings would ask for a large kernel
                out.append(np.round(obj.calculate_psf_kernel(suppress_warnings=True, accelerated=False), 12).tolist())
        except (ValueError, TypeError, ArithmeticError, AttributeError, Boom) as e:
            out.append(type(e).__name__)
    return out, q.messages, q.out.getvalue()


def run(case, res):
    z2 = env.load(cpu=8, numba="absent")
    z = env.load(cpu=4, numba="absent")
    w = S.World(case, res, "c12")
    try:
        with env.quiet(), procsim.use_clock(procsim.SimClock("calm", w.ch)):
            _run(case, res, w, z, z2)
    finally:
        w.close()
        z2.reset()


def _finite(x):
    try:
        x = np.asarray(x, float)
        return x.ndim < 2 and bool(np.isfinite(x).all())
    except (TypeError, ValueError):
        return False


def replay(z2, pols, seq, accepted):
    z2.reset()
    t = K.make_obj(z2, pols, list if seq else None)
    with env.quiet():
        for kind, kw in accepted:
            (t.set_physical_props if kind == "phys" else t.set_calculation_props)(**kw)
    return t


def _run(case, res, w, z, z2):
    pols = case["pols"]
    n = len(pols)
    seq = case["seq"] and n == 1
    obj = K.make_obj(z, pols, list if seq else None)
    accepted = []                          # the last accepted call of each kind, in order

    def accept(kind, kw):
        if kind == "phys":
            accepted.clear() if not any(k == "calc" for k, _ in accepted) else accepted.__setitem__(slice(None), [a for a in accepted if a[0] == "calc"])
        else:
            accepted[:] = [a for a in accepted if a[0] != "calc"]
        accepted.append((kind, {k: plain(v) for k, v in kw.items()}))
    for kind, v in case["start"]:
        kw = phys_args(v, "ok", 1, n) if kind == "phys" else calc_args(v, "ok", 1)
        (obj.set_physical_props if kind == "phys" else obj.set_calculation_props)(**kw)
        accept(kind, kw)
    if case["kernel"] and accepted and accepted[0][0] == "phys" and obj.kernel_size <= 5 and obj.n_int_r_points <= 31:
        obj.calculate_psf_kernel(suppress_warnings=True, accelerated=False)
    raised = 0
    for n_op, op in enumerate(case["ops"]):
        kind, v, how, e, k = op
        args = (lambda: phys_args(v, how, k, n)) if kind == "phys" else (lambda: calc_args(v, how, k))
        call = lambda o, kw: (o.set_physical_props if kind == "phys" else o.set_calculation_props)(**kw)
        before, kernel = K.public(obj), np.array(obj.kernel)
        kw = args()
        fired = False
        where = e
        if e in ("KeyboardInterrupt", "MemoryError"):
            t = replay(z2, pols, seq, accepted)
            fired, out, where = interrupted(w.ch, lambda: call(t, args()), lambda: call(obj, kw), e)
        else:
            room = 2 + w.ch.pick(8)
            try:
                if e == "errors":
                    with warnings.catch_warnings():
                        warnings.simplefilter("error")
                        out = ("ok", call(obj, kw))
                elif e == "stack":
                    with StackRoom(room):
                        out = ("ok", call(obj, kw))
                elif e == "numeric":
                    with np.errstate(all="raise"):
                        out = ("ok", call(obj, kw))
                elif e == "stdout":
                    old, sys.stdout = sys.stdout, Broken()
                    try:
                        out = ("ok", call(obj, kw))
                    finally:
                        sys.stdout = old
                else:
                    out = ("ok", call(obj, kw))
            except (Exception, KeyboardInterrupt) as x:
                x.__traceback__ = None
                out = ("raised", x)
        res.note(kind, how, e, where, out[0], type(out[1]).__name__)
        res.count(f"{out[0]}:{how if e == 'plain' else e}")
        what = f"{kind} call ({how}, {where})"
        if out[0] == "raised":
            raised += 1
            if fired or e not in ("plain", "KeyboardInterrupt", "MemoryError"):
                res.count(f"fault:{e}")
            d = K.diff(before, K.public(obj))
            if d:
                raise Violation("half-applied", f"{what} raised {type(out[1]).__name__}, but changed {d}")
            if not env.arr_eq(kernel, obj.kernel):
                raise Violation("half-applied", f"{what} raised {type(out[1]).__name__}, but changed the kernel")
            if how == "ok" and e == "plain":
                raise Violation("unexpected-error", f"{what}: {type(out[1]).__name__}: {out[1]}")
        else:
            accept(kind, kw)
            disarm(kw)
            d = K.diff(K.public(replay(z2, pols, seq, accepted)), K.public(obj))
            if d:
                raise Violation("half-applied", f"{what} returned, but differs from the same call on a new object: {d}")
    # what later calls show
    res.nontrivial = raised > 0
    last = {"NA": 0.1, "wl": 0.5, "px": 1.0, "a": 0.1 if n == 1 else [0.1]*n}
    t = replay(z2, pols, seq, accepted)
    t.kernel = np.array(obj.kernel)
    d1, d2 = os.path.join(w.root, "other"), os.path.join(w.root, "d")
    finite = all(_finite(x) for _, kw in accepted for x in kw.values())
    if case.get("workers") and finite and raised and obj.zernpol is not None and not obj.airy and obj.kernel_size <= 3 and obj.n_int_r_points <= 45:
        with_workers(case, res, w, z2, obj, t)
    plan = [case["then"], "save", "calc", "kernel", "phys", "calc", "kernel"]
    for how in plan:
        if how in ("save", "kernel") and not finite:
            continue
        for d in (d1, d2):
            os.makedirs(d, exist_ok=True)
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
        if how == "phys":
            finite = True
        if how == "kernel" and not accepted and case["then"] == "kernel":
            continue
        a = observe(obj, how, d1, last, w)
        z2.reset()
        b = observe(t, how, d2, last, w)
        if how == "kernel":
            t.kernel = np.array(obj.kernel)
        if repr(a) != repr(b):
            raise Violation("trace-of-failed-call", f"a later {how} call shows {str(a)[:400]}, on an object with the accepted settings only {str(b)[:400]}")
        d = K.diff(K.public(t), K.public(obj))
        if d:
            raise Violation("trace-of-failed-call", f"after a later {how} call: {d}")
    res.choices = w.ch.record
    res.note("end", sorted(K.public(obj).items(), key=str))


def with_workers(case, res, w, z2, obj, t):
    """The kernel computed by the workers uses the accepted settings too (it is not computed by the code of the serial one)."""
    sim = procsim.Sim(w.ch, profile="plain", feeder="plain", res=None, max_time=600.0, max_steps=2_000_000)
    out = {}

    def program():
        obj.initialize_parallel_workers()
        try:
            out["k"] = np.array(obj.get_kernel_parallel(False))
        finally:
            obj.deinitialize_workers()
    sim.run(program)
    if sim.over_reason == "simulator-crash":
        raise HarnessError(sim.crash)
    z2.reset()
    size = t.kernel_size
    try:
        with env.quiet():
            k = t.calculate_psf_kernel(suppress_warnings=True, normalized=False, accelerated=False)
    except (ValueError, TypeError, ArithmeticError, AttributeError, Boom) as e:
        if "k" in out:
            raise Violation("trace-of-failed-call", f"workers compute a kernel, on an object with the accepted settings only: {type(e).__name__}: {e}")
        return                                     # accepted, but not usable settings
    finally:
        t.kernel_size = size
    if "k" not in out:
        raise Violation("trace-of-failed-call", f"computation on workers after the calls: {sim.over_reason} {sim.main.error!r}")
    if not env.arr_close(out["k"], k, rtol=1e-9, atol=1e-12):
        raise Violation("trace-of-failed-call", f"the kernel of the workers differs from that of an object with the accepted settings only by {np.max(np.abs(out['k'] - k)):.3g}")
    t.kernel = np.array(obj.kernel)
    res.count("kernels-on-workers")

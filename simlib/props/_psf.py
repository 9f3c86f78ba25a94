"""Workloads on ZernPSF objects and the reference they are judged by: a newly created object that received only the settings
in force, evaluated after all module- and class-level state of the package was restored."""
import json

import numpy as np

from .. import env
from ..core import Violation

SINGLES = [[1], [2], [3], [4], [5], [6], [7], [8], [9], [12], [14], [0], [23], [33]]
MULTIS = [[1, 4], [3, 5, 12], [0, 4], [7, 8], [2, 5, 6, 14], [4, 0, 9]]


def gen_pols(rng, multi=0.3, airy=True):
    while True:
        p = list(rng.choice(MULTIS if rng.random() < multi else SINGLES))
        if airy or p != [0]:
            return p


def gen_phys(rng, n_pols, small=True):
    """Accepted physical settings; `small` keeps the estimated kernel at about 3-7 points."""
    NA = rng.choice([0.06, 0.1, 0.15, 0.2] if small else [0.3, 0.5, 0.95, 1.3])
    wl = rng.choice([0.4, 0.45, 0.532, 0.6, 0.75])
    px = round(rng.choice([0.7, 0.8, 0.9, 0.97])*0.25*wl/NA, 6)
    amp = lambda: round(rng.choice([-1, 1])*rng.choice([0.004, 0.03, 0.03, 0.08, 0.08, 0.11, 0.11, 0.17, 0.17, 0.24, 0.24])*wl/0.5, 4)
    if rng.random() < 0.3:                    # values with all digits
        f = lambda: 1.0 + 1e-4*(rng.random() - 0.5)
        NA *= f(); wl *= f(); px *= 0.999*f()
        amp0, amp = amp, lambda: amp0()*f()
    if n_pols == 1:
        a = amp()
        if rng.random() < 0.15:
            a = [a]
    else:
        a = [amp() for _ in range(n_pols)]
        if rng.random() < 0.2:                # one of the polynomials has no weight
            a[rng.randrange(n_pols)] = 0.0
    return {"NA": NA, "wl": wl, "px": px, "a": a}


def gen_calc(rng, sizes=(3, 3, 3, 5, 4)):
    return [rng.choice(sizes), rng.choice([20, 22, 25, 31]), rng.choice([36, 37, 40, 45])]


def make_obj(z, pols, seq=None):
    pols = [z.ZernPol(osa=i) for i in pols]
    return z.ZernPSF(pols[0] if len(pols) == 1 and seq is None else (seq or list)(pols))


def set_phys(obj, p):
    a = p["a"]
    return obj.set_physical_props(p["NA"], p["wl"], list(a) if isinstance(a, list) else a, p["px"])


class State:
    """Settings in force according to the calls that were accepted."""

    def __init__(self, pols):
        self.pols = list(pols)
        self.calls = []           # at most one ("phys", p), one ("calc", c) and one ("size", n), in the order of their last use

    def copy(self):
        s = State(self.pols)
        s.calls = [list(c) for c in self.calls]
        return s

    def set(self, kind, value):
        drop = {"phys": ("phys", "size"), "calc": ("calc", "size"), "size": ("size",)}[kind]
        self.calls = [c for c in self.calls if c[0] not in drop] + [[kind, json.loads(json.dumps(value))]]

    def key(self):
        return json.dumps([self.pols, self.calls])

    def fresh(self, z):
        obj = make_obj(z, self.pols)
        for kind, v in self.calls:
            if kind == "phys":
                set_phys(obj, v)
            elif kind == "calc":
                obj.set_calculation_props(*v)
            else:
                obj.kernel_size = v
        return obj

    def settings(self, z):
        with env.quiet():
            return public(self.fresh(z))


PUBLIC = ("NA", "wavelength", "pixel_size", "kernel_size", "n_int_r_points", "n_int_phi_points", "airy")


def orders(obj):
    if obj.zernpol is not None:
        return [tuple(obj.zernpol.get_mn_orders())]
    return [tuple(p.get_mn_orders()) for p in obj.polynomials]


def _floats(x):
    try:
        return [float(v) for v in x]
    except Exception:
        try:
            return np.asarray(x).tolist()
        except Exception:
            return [type(x).__name__]


def public(obj):
    """What a caller can observe of the settings."""
    d = {k: getattr(obj, k) for k in PUBLIC}
    d["orders"] = orders(obj)
    d["amplitudes"] = [float(obj.expansion_coeff)] if obj.zernpol is not None else (
        None if obj.coefficients is None else _floats(obj.coefficients))
    if obj.zernpol is None:
        del d["airy"]
    return d


def diff(a, b):
    return "; ".join(f"{k}: {a.get(k)!r} -> {b.get(k)!r}" for k in sorted(set(a) | set(b))
                     if a.get(k) != b.get(k) and repr(a.get(k)) != repr(b.get(k)))


_memo = {}


def reference(z, state, normalized=True, accelerated=False, setup=True):
    """Kernel of a newly created object in pristine module state. Call only after z.reset() (see pristine())."""
    key = (id(z), state.key(), normalized, accelerated)
    if key not in _memo:
        if len(_memo) > 4000:
            _memo.clear()
        with env.quiet():
            k = state.fresh(z).calculate_psf_kernel(suppress_warnings=True, normalized=normalized, accelerated=accelerated)
        k = np.array(k)
        k.setflags(write=False)
        _memo[key] = k
    return _memo[key]


class Expect:
    """Kernels seen during a run, compared with the reference after it (the module state is restored first)."""

    def __init__(self):
        self.items = []

    def kernel(self, state, kernel, normalized, accelerated, where, kind="wrong-kernel", rtol=1e-9):
        self.items.append((state.copy(), np.array(kernel), normalized, accelerated, where, kind, rtol))

    def check(self, z, res):
        z.reset()
        for state, k, normalized, acc, where, kind, rtol in self.items:
            ref = reference(z, state, normalized, acc)
            if k.shape != ref.shape:
                raise Violation(kind, f"{where}: kernel of shape {k.shape}, a new object computes {ref.shape}")
            if not env.arr_close(k, ref, rtol=rtol, atol=1e-12):
                raise Violation(kind, f"{where}: kernel differs from that of a new object by up to {np.max(np.abs(k - ref)):.3g}; settings {state.key()}")
            res.count("kernels-compared")

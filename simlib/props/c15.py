"""C15: random phase images are consistent for every random stream."""
import random
import warnings

import numpy as np

from .. import env
from ..choice import chooser_for
from ..core import Violation
from ..thrsim import StackRoom, instrument, interrupted
from .c11 import coeffs

ID = "C15"
LEVEL = "exploration"
RULE = "run counts as non-trivial when the stream was adversarial, an earlier generation was stopped, or the generation followed other operations; distinct = distinct event-sequence hash"
QUICK_RUNS, THOROUGH_RUNS = 4000, 120000

AMPS = [0.0, 1e-9, -1e-9, 0.0799999, -0.0799999, 0.08, -0.08, 0.0800001, 0.05, -0.05, 0.049999, 0.0001, 0.00004999, 0.00005001, 0.07994, 0.07995, -0.07996, 0.5, -1.2,
        1.4999999, -1.4999999, -1.5, 1.5]
SIZES = [[1, 1], [2, 3], [3, 3], [5, 5], [5, 7], [7, 7], [8, 8], [9, 6], [9, 9], [12, 5], [13, 13], [15, 14], [17, 5], [5, 13], [1, 4], [4, 1]]


def setup():
    for c in (4, 8):
        instrument(env.load(cpu=c, numba="absent"), env.is_subject)


def gen_stream(rng):
    r = rng.random()
    if r < 0.3:
        return {"kind": "mt", "seed": rng.choice([0, 1, rng.randrange(1 << 32), rng.randrange(1 << 32)])}
    return {"kind": "adv", "seed": rng.randrange(1 << 32), "index": rng.choice(["none", "none", "all", "one", "p", "fair"]), "at": rng.randrange(0, 16),
            "float": rng.choice(["special", "special", "small", "mixed", "fair", "zero", "one", "half", "seq"]), "seq": [rng.randrange(len(AMPS)) for _ in range(4)]}


def gen_call(rng):
    w, h = rng.choice(SIZES)
    return [rng.choice([0, 1, 2, 2, 3, 3, 4, 4, 5, 6, 8, 9, 11]), w, h, rng.choice([4, 4, 4, 3, 2, 6, 1, 8, 10])]


def gen(rng, idx):
    ops = []
    for _ in range(rng.randrange(1, 5)):
        r = rng.random()
        if r < 0.55:
            ops.append(["gen", gen_call(rng), gen_stream(rng)])
        elif r < 0.8:
            ops.append(["stop", gen_call(rng), gen_stream(rng), rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "warning", "numeric", "stack", "dry"])])
        else:
            ops.append(["other", rng.choice(["fit", "pols", "value", "image", "shuffle", "scribble", "bad", "npseed"]), rng.randrange(1 << 20)])
    if not any(o[0] == "gen" for o in ops):
        ops.append(["gen", gen_call(rng), gen_stream(rng)])
    return {"ops": ops, "faults": []}


def directed():
    s = lambda index, fl, at=0, seq=(0, 1, 2, 3): {"kind": "adv", "seed": 5, "index": index, "at": at, "float": fl, "seq": list(seq)}
    for order in (0, 1, 2, 3, 4, 5, 8, 9):
        for index in ("none", "all", "one"):
            for fl in ("zero", "one", "half", "small", "special"):
                yield {"ops": [["gen", [order, 7, 7, 4], s(index, fl)]], "faults": [], "seed": 1}
    for k in range(len(AMPS)):
        for index in ("none", "one", "all"):
            yield {"ops": [["gen", [2, 5, 7, 4], s(index, "seq", 3, (k, 5, 8))]], "faults": [], "seed": 1}


# ------------------------------------------------------------------------------------------------------- the seam
class Dry(Exception):
    """The source of randomness fails."""


class Source:
    """Decides what the generator returns."""

    def __init__(self, spec, n_pols, dry=None):
        self.spec, self.rng = spec, random.Random(spec["seed"])
        self.i = self.f = 0
        self.n = n_pols
        self.dry = dry

    def tick(self):
        if self.dry is not None:
            self.dry -= 1
            if self.dry < 0:
                raise Dry()

    def index(self, n):
        self.tick()
        self.i += 1
        how = self.spec["index"]
        if self.i > self.n and how != "fair":                # after the selection: which one is raised
            return min(n - 1, self.spec["at"])
        if how == "none":
            return 0
        if how == "all":
            return n - 1
        if how == "one":
            return n - 1 if self.i - 1 == self.spec["at"] % max(1, self.n) else 0
        if how == "p":
            return self.rng.choice([0, n - 1])
        return self.rng.randrange(n)

    def float(self):
        self.tick()
        self.f += 1
        how = self.spec["float"]
        if how == "zero":
            return 0.0
        if how == "one":
            return 1.0 - 2.0**-53
        if how == "half":
            return 0.5
        if how == "fair" or how == "mixed" and self.rng.random() < 0.5:
            return self.rng.random()
        if how == "small":
            return 0.5 + self.rng.uniform(-0.079, 0.079)/3
        a = AMPS[self.spec["seq"][(self.f - 1) % len(self.spec["seq"])]] if how == "seq" else self.rng.choice(AMPS)
        return min(max((a + 1.5)/3.0, 0.0), 1.0 - 2.0**-53)


class Adversary(random.Random):
    def random(self):
        return self.__dict__["source"].float()

    def _randbelow(self, n):
        return self.__dict__["source"].index(n)

    def getrandbits(self, k):
        return int(self.__dict__["source"].float()*(1 << min(k, 53)))


class Stream:
    """The standard generator in a known state, or under the control of a source."""

    def __init__(self, spec, order, dry=None):
        self.spec = spec
        self.dry = dry
        self.n = int((order + 1)*(order + 2)//2)

    def __enter__(self):
        inst = random._inst
        self.saved = random.random, random.getrandbits
        if self.spec["kind"] == "mt":
            random.seed(self.spec["seed"])
        else:
            random.seed(self.spec["seed"])
            inst.__dict__["source"] = Source(self.spec, self.n, self.dry)
            inst.__class__ = Adversary
            random.random, random.getrandbits = inst.random, inst.getrandbits
        return self

    def __exit__(self, *a):
        inst = random._inst
        inst.__class__ = random.Random
        inst.__dict__.pop("source", None)
        random.random, random.getrandbits = self.saved


def generate(z, call, stream, dry=None):
    order, w, h, digits = call
    with Stream(stream, order, dry):
        return z.zernikepol.generate_random_phases(order, w, h, digits)


# ----------------------------------------------------------------------------------------------------------- oracle
_grid, _units = {}, {}


def grid(w, h):
    """Polar coordinates of the pixels (None outside of the circle)."""
    if (w, h) not in _grid:
        R = 1 + min(w, h)//2
        i, j = np.indices((h, w))
        y, x = h//2 - i, j - w//2
        r = np.sqrt(x*x + y*y)/R
        _grid[w, h] = (r, np.mod(np.arctan2(y, x), 2*np.pi), r <= 1.0 + 1e-12)
    return _grid[w, h]


def unit(m, n, w, h):
    key = (m, n, w, h)
    if key not in _units:
        if len(_units) > 20000:
            _units.clear()
        r, th, inside = grid(w, h)
        rad = sum(c*r**k for k, c in coeffs(m, n).items())
        nf = np.sqrt(n + 1) if m == 0 else np.sqrt(2*(n + 1))
        _units[key] = np.where(inside, nf*rad*(np.cos(m*th) if m >= 0 else np.sin(-m*th)), 0.0)
    return _units[key]


def judge(z, call, out, where, res, fit):
    order, w, h, digits = call
    if not isinstance(out, tuple) or len(out) != 3:
        raise Violation("inconsistent", f"{where}: {type(out).__name__} returned")
    img, a, pols = out
    a = np.asarray(a, float)
    orders = [tuple(p.get_mn_orders()) for p in pols]
    expected = [(m, n) for n in range(int(order) + 1) for m in range(-n, n + 1, 2)]
    if orders != expected:
        raise Violation("inconsistent", f"{where}: polynomials {orders[:6]}... for order {order}")
    if img.shape != (h, w) or a.shape != (len(pols),):
        raise Violation("inconsistent", f"{where}: image {img.shape}, {a.shape} amplitudes for {len(pols)} polynomials")
    if not np.isfinite(a).all() or np.max(np.abs(a)) > 1.5 + 1e-12:
        raise Violation("out-of-range", f"{where}: amplitudes {a.tolist()}")
    if np.max(np.abs(a)) < 0.08 - 1e-12:
        raise Violation("negligible", f"{where}: largest amplitude {np.max(np.abs(a))!r}")
    ref = np.zeros((h, w))
    for (m, n), c in zip(orders, a):
        if c:
            ref += c*unit(m, n, w, h)
    d = np.max(np.abs(img - ref))
    if not d <= 1e-8*(1 + np.max(np.abs(ref))):
        raise Violation("inconsistent", f"{where}: image differs from the sum of the returned polynomials by {d:.3g} (amplitudes {a.tolist()})")
    again = z.zernikepol.generate_phases_image(pols, tuple(a), w, h)
    if not env.arr_close(img, again, 1e-9, 1e-9):
        raise Violation("inconsistent", f"{where}: image differs from generate_phases_image of the returned polynomials and amplitudes")
    r, th, inside = grid(w, h)
    inside = inside & (r <= 1.0)
    M = np.stack([unit(m, n, w, h)[inside] for m, n in orders], axis=1)
    if fit and M.shape[0] >= M.shape[1]:
        s = np.linalg.svd(M, compute_uv=False)
        if s[-1] > 1e-3*s[0]:
            f = z.zernikepol.fit_polynomials_vectors(pols, img[inside], r[inside], th[inside], round_digits=8)
            if not np.max(np.abs(f - a)) <= 1e-5:
                raise Violation("fit-differs", f"{where}: fit returns {f.tolist()} instead of {a.tolist()}")
            res.count("fitted")
    res.count("images-judged")


def run(case, res):
    z2 = env.load(cpu=8, numba="absent")
    z = env.load(cpu=4, numba="absent")
    state = random.getstate(), np.random.get_state()
    try:
        with env.quiet():
            _run(case, res, z, z2)
    finally:
        random.setstate(state[0])
        np.random.set_state(state[1])
        z2.reset()


def same(a, b):
    return env.arr_close(a[0], b[0], 1e-12, 1e-12) and env.arr_close(a[1], b[1], 0, 0) and [p.get_mn_orders() for p in a[2]] == [p.get_mn_orders() for p in b[2]]


def _run(case, res, z, z2):
    ch = chooser_for(case)
    kept = []
    trivial = True
    for n_op, op in enumerate(case["ops"]):
        where = f"operation {n_op} {op[1]}"
        if op[0] == "gen":
            call, stream = op[1], op[2]
            out = generate(z, call, stream)
            judge(z, call, out, where, res, fit=call[0] <= 6)
            if stream["kind"] == "adv" or n_op:
                trivial = False
            if stream["kind"] == "adv":
                res.count(f"fault:stream-{stream['index']}-{stream['float']}")
            random.random(), np.random.rand()
            second = generate(z, call, stream)
            if not same(out, second):
                raise Violation("not-reproducible", f"{where}: the same stream gives another result in a second call")
            z2.reset()
            if not same(out, generate(z2, call, stream)):
                raise Violation("not-reproducible", f"{where}: the same stream gives another result in a fresh program")
            kept.append((out[0], out[0].copy(), np.asarray(out[1]), np.array(out[1])))
            res.note("gen", call, np.round(out[1], 6).tolist())
        elif op[0] == "stop":
            trivial = False
            call, stream, kind = op[1], op[2], op[3]
            go = lambda: generate(z, call, stream)
            fired = False
            w = kind
            try:
                if kind in ("KeyboardInterrupt", "MemoryError"):
                    fired, out, w = interrupted(ch, lambda: generate(z2, call, stream), go, kind)
                elif kind == "warning":
                    with warnings.catch_warnings():
                        warnings.simplefilter("error")
                        out = ("ok", go())
                elif kind == "numeric":
                    with np.errstate(all="raise"):
                        out = ("ok", go())
                elif kind == "stack":
                    with StackRoom(3 + ch.pick(8)):
                        out = ("ok", go())
                else:
                    if stream["kind"] == "mt":
                        stream = {"kind": "adv", "seed": stream["seed"], "index": "fair", "at": 0, "float": "fair", "seq": [0]}
                    out = ("ok", generate(z, call, stream, dry=ch.pick(2*(call[0] + 1)*(call[0] + 2)//2 + 2)))
            except (Dry, RecursionError, FloatingPointError, Warning) as e:
                e.__traceback__ = None
                out = ("raised", e)
                fired = True
            res.note("stop", kind, w, out[0])
            if fired:
                res.count(f"fault:{kind}")
            if out[0] == "ok":
                judge(z, call, out[1], where, res, fit=False)
            elif not fired:
                raise out[1]
        else:
            other(z, op, kept)
    for img, c, a, ac in kept:
        if not env.arr_eq(img, c) or not env.arr_eq(a, ac):
            raise Violation("returned-array-altered", "an image returned earlier changed later")
    res.nontrivial = not trivial
    res.choices = ch.record


def other(z, op, kept):
    rng = random.Random(op[2])
    zp = z.zernikepol
    if op[1] == "fit":
        img = np.random.default_rng(op[2]).normal(size=(9, 9))
        zp.fit_polynomials(img, zp.generate_polynomials(2), suppress_warnings=True)
    elif op[1] == "pols":
        list(zp.generate_polynomials(rng.randrange(0, 7)))
    elif op[1] == "value":
        n = rng.randrange(0, 16)
        z.ZernPol(m=rng.randrange(-n, n + 1, 2), n=n).polynomial_value(np.array([0.1, 0.7]), np.array([0.2, 3.0]))
    elif op[1] == "image":
        p = zp.generate_polynomials(2)
        zp.generate_phases_image(p, tuple(rng.uniform(-1, 1) for _ in p), 7, 6)
    elif op[1] == "shuffle":
        random.seed(op[2])
        random.shuffle(list(range(9)))
    elif op[1] == "scribble":
        for img, c, a, ac in kept:
            img[...] = 5.0
            a[...] = 5.0
        kept.clear()
    elif op[1] == "bad":
        for args in ((-1, 5, 5), (2, -3, 5), ("a", 5, 5), (2, 5.5, 5)):
            try:
                zp.generate_random_phases(*args)
            except (ValueError, TypeError):
                pass
    else:
        np.random.seed(op[2] & 0xffff)

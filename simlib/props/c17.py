"""C17: calls leave the process-wide settings and resources of the surrounding program as they were."""
import builtins
import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np

from .. import env, fssim, procsim
from ..choice import chooser_for
from ..core import Violation
from ..thrsim import Stop, ThreadSim, instrument
from . import _pool as P
from . import _psf as K
from . import _save as S
from . import c10, c13
from . import c14  # noqa: registers the stand-ins of the optional libraries

ID = "C17"
LEVEL = "exploration"
RULE = "run counts as non-trivial when a call failed, was refused or was disturbed, or a thread was preempted inside the package; distinct = distinct event-sequence hash"
QUICK_RUNS, THOROUGH_RUNS = 3000, 90000
KINDS = c10.KINDS
STAND = ["pyjit", "pyjit", "absent", "lazyfail", "njit-raises"]


def setup():
    for c in (4, 8):
        instrument(env.load(cpu=c, numba="absent"), env.is_subject)
    import matplotlib.figure  # noqa


# ------------------------------------------------------------------------------------------------- what is looked at
def _fds():
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + f)
        except OSError:
            continue
        if not t.endswith((".ttf", ".afm", ".otf", ".ttc")):      # fonts are kept open by matplotlib
            out.append((f, t.split(":")[0]))
    return sorted(out)


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def _rc():
    import matplotlib
    return {k: v for k, v in dict.items(matplotlib.rcParams) if k != "interactive"}


def _set_rc(v):
    import matplotlib
    for k, x in v.items():
        dict.__setitem__(matplotlib.rcParams, k, x)


def _interactive(v=None):
    import matplotlib
    if v is None:
        return matplotlib.is_interactive()
    matplotlib.interactive(v)


def _decimal():
    c = decimal.getcontext()
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(sorted(str(k) for k, v in c.traps.items() if v)))


def _env(v):
    for k in [k for k in os.environ if k not in v]:
        del os.environ[k]
    for k, x in v.items():
        if os.environ.get(k) != x:
            os.environ[k] = x


def _restore_list(lst):
    def put(v):
        lst()[:] = v
    return put


SIGNALS = [s for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGHUP, signal.SIGPIPE, signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM, signal.SIGFPE)]


def _set_filters(v):
    warnings.filters[:] = v
    warnings._filters_mutated()


# name -> (read, write back)
STATE = {
    "warning filters": (lambda: list(warnings.filters), _set_filters),
    "warnings.showwarning": (lambda: warnings.showwarning, lambda v: setattr(warnings, "showwarning", v)),
    "warnings.formatwarning": (lambda: warnings.formatwarning, lambda v: setattr(warnings, "formatwarning", v)),
    "numpy error handling": (lambda: np.geterr(), lambda v: np.seterr(**v)),
    "numpy error callback": (lambda: np.geterrcall(), lambda v: np.seterrcall(v)),
    "numpy print options": (lambda: {k: v for k, v in np.get_printoptions().items() if k != "override_repr"}, lambda v: np.set_printoptions(**v)),
    "numpy buffer size": (lambda: np.getbufsize(), lambda v: np.setbufsize(v)),
    "numpy random state": (lambda: [x.tobytes() if isinstance(x, np.ndarray) else x for x in np.random.get_state()], lambda v: None),
    "random state": (lambda: random.getstate(), lambda v: random.setstate(v)),
    "working folder": (lambda: os.getcwd(), lambda v: os.chdir(v)),
    "environment variables": (lambda: dict(os.environ), _env),
    "umask": (_umask, lambda v: os.umask(v)),
    "stdin": (lambda: sys.stdin, lambda v: setattr(sys, "stdin", v)),
    "stdout": (lambda: sys.stdout, lambda v: setattr(sys, "stdout", v)),
    "stderr": (lambda: sys.stderr, lambda v: setattr(sys, "stderr", v)),
    "excepthook": (lambda: sys.excepthook, lambda v: setattr(sys, "excepthook", v)),
    "threading.excepthook": (lambda: threading.excepthook, lambda v: setattr(threading, "excepthook", v)),
    "displayhook": (lambda: sys.displayhook, lambda v: setattr(sys, "displayhook", v)),
    "trace function": (lambda: sys.gettrace(), lambda v: sys.settrace(v)),
    "profile function": (lambda: sys.getprofile(), lambda v: sys.setprofile(v)),
    "recursion limit": (lambda: sys.getrecursionlimit(), lambda v: sys.setrecursionlimit(v)),
    "switch interval": (lambda: sys.getswitchinterval(), lambda v: sys.setswitchinterval(v)),
    "limit of int digits": (lambda: sys.get_int_max_str_digits(), lambda v: sys.set_int_max_str_digits(v)),
    "sys.path": (lambda: list(sys.path), _restore_list(lambda: sys.path)),
    "sys.argv": (lambda: list(sys.argv), _restore_list(lambda: sys.argv)),
    "signal handlers": (lambda: [signal.getsignal(s) for s in SIGNALS],
                        lambda v: [signal.signal(s, h) for s, h in zip(SIGNALS, v) if h is not None and s != signal.SIGALRM]),
    "timer": (lambda: signal.getitimer(signal.ITIMER_REAL)[0] > 0, lambda v: None),
    "locale": (lambda: locale.setlocale(locale.LC_ALL), lambda v: locale.setlocale(locale.LC_ALL, v)),
    "decimal context": (_decimal, lambda v: None),
    "garbage collection": (lambda: (gc.isenabled(), gc.get_threshold()), lambda v: (gc.enable() if v[0] else gc.disable(), gc.set_threshold(*v[1]))),
    "gc debug flags": (lambda: gc.get_debug(), lambda v: gc.set_debug(v)),
    "temporary folder": (lambda: tempfile.tempdir, lambda v: setattr(tempfile, "tempdir", v)),
    "logging": (lambda: (logging.root.level, logging.root.disabled, logging.root.manager.disable, len(logging.root.handlers)), lambda v: logging.disable(v[2])),
    "matplotlib settings": (_rc, _set_rc),
    "matplotlib interactive": (_interactive, _interactive),
    "print": (lambda: builtins.print, lambda v: setattr(builtins, "print", v)),
    "open": (lambda: builtins.open, lambda v: setattr(builtins, "open", v)),
    "running threads": (lambda: threading.active_count(), lambda v: None),
    "open files": (_fds, lambda v: None),
}
SHARED_WITH_WORKERS = {"warning filters", "warnings.showwarning", "warnings.formatwarning", "numpy error handling", "numpy error callback", "numpy random state",
                       "random state", "signal handlers", "timer", "running threads", "stdin", "stdout", "stderr", "trace function", "profile function",
                       "excepthook", "threading.excepthook", "open files", "logging"}


class Ambient:
    """What the surrounding program has set; may be compared and put back."""

    def __init__(self, skip=()):
        self.was = {k: f() for k, (f, _) in STATE.items() if k not in skip}

    def check(self, where, skip=()):
        for k, v in self.was.items():
            if k in skip:
                continue
            now = STATE[k][0]()
            if k in ("open files", "running threads") and now != v:
                gc.collect()
                now = STATE[k][0]()
                if k == "open files" and set(now) <= set(v) or k == "running threads" and now <= v:
                    continue
            if now != v:
                if isinstance(v, dict):
                    d = {x: (v.get(x), now.get(x)) for x in set(v) | set(now) if v.get(x) != now.get(x)}
                    raise Violation("changed-" + k.replace(" ", "-"), f"{where}: {k}: {str(d)[:300]}")
                raise Violation("changed-" + k.replace(" ", "-"), f"{where}: {k}: {str(v)[:150]} -> {str(now)[:150]}")

    def restore(self):
        for k, v in self.was.items():
            if STATE[k][0]() != v:
                STATE[k][1](v)


class Figures:
    """Figures of the user of pyplot."""

    def __init__(self, many=False):
        import matplotlib.pyplot as plt
        self.plt = plt
        plt.close("all")
        self.others = [plt.figure(f"other {i}", figsize=(1, 1)).number for i in range(25 if many else 1)]
        self.fig = plt.figure("of the user", figsize=(2, 1))
        self.ax = self.fig.add_axes((0, 0, 1, 1))
        self.ax.plot([0, 1], [1, 0]); self.ax.set_title("mine")
        self.was = self.state()

    def state(self):
        return (len(self.fig.axes), len(self.ax.lines), len(self.ax.images), len(self.ax.collections), len(self.ax.texts), self.ax.get_title(), self.ax.axison,
                tuple(self.fig.get_size_inches()), tuple(self.ax.get_position().bounds))

    def check(self, where, plots):
        if not self.plt.fignum_exists("of the user") or not set(self.others) <= set(self.plt.get_fignums()):
            raise Violation("changed-figures", f"{where} closed a figure of the user")
        if self.state() != self.was:
            raise Violation("changed-figures", f"{where} altered the figure of the user: {self.was} -> {self.state()}")
        if not plots:
            if self.plt.get_fignums() != self.others + [self.fig.number]:
                raise Violation("changed-figures", f"{where} opened a figure")
            if self.plt.gcf() is not self.fig:
                raise Violation("changed-figures", f"{where} changed the current figure")

    def tidy(self):
        for n in self.plt.get_fignums():
            if n != self.fig.number and n not in self.others:
                self.plt.close(n)
        self.plt.figure("of the user")

    def close(self):
        self.plt.close("all")


def _user(names):
    """The user's own settings, different from the initial ones."""
    for n in names:
        if n == "np":
            np.seterr(divide="ignore", over="ignore", under="ignore", invalid="ignore")
        elif n == "np-warn":
            np.seterr(under="warn")
        elif n == "np-call":
            np.seterrcall(_callback)
        elif n == "print":
            np.set_printoptions(precision=3, suppress=True, threshold=12)
        elif n == "filters":
            warnings.filterwarnings("ignore", message="something of the user")
        elif n == "seed":
            random.seed(4711); np.random.seed(4711)
        elif n == "env":
            os.environ["OMP_NUM_THREADS"] = "3"; os.environ["USER_SETTING"] = "1"; os.environ["MKL_NUM_THREADS"] = "2"
        elif n == "umask":
            os.umask(0o27)
        elif n == "limit":
            sys.setrecursionlimit(sys.getrecursionlimit() + 517)
        elif n == "switch":
            sys.setswitchinterval(0.002)
        elif n == "gc":
            gc.set_threshold(0, 15, 12)
        elif n == "nogc":
            gc.disable()
        elif n == "rc":
            _set_rc({"font.size": 7.5, "image.cmap": "gray", "figure.figsize": [2.0, 1.0]})
        elif n == "interactive":
            _interactive(True)
        elif n == "decimal":
            decimal.getcontext().prec = 11
        elif n == "usr1":
            signal.signal(signal.SIGUSR1, signal.SIG_IGN)
        elif n == "digits":
            sys.set_int_max_str_digits(5000)


def _callback(err, flag):
    pass


USER = ["np", "np-warn", "np-call", "print", "filters", "seed", "env", "umask", "limit", "switch", "gc", "nogc", "rc", "interactive", "decimal", "usr1", "digits", "figures"]
BAD = ["pol-orders", "pol-index", "pol-args", "radius", "text", "sum-lengths", "fit-3d", "fit-few", "NA", "wavelength", "amps", "points", "size", "image-3d", "image-none", "read-none",
       "read-text", "read-missing", "save-number", "generate", "noll", "phases-zero", "surface", "figure", "parallel", "psf-number", "deinit"]
PLOTS = ["show", "visualize", "profile", "initialize", "sumplot"]


def gen_any(rng):
    r = rng.random()
    if r < 0.62:
        while True:
            op = c13.gen_op(rng)
            if op[0] == "rand":
                if rng.random() < 0.5:
                    continue
                op = [op[0], rng.choice([0, 1, 2, 3, 4, 5, 8, 9]), rng.choice([3, 5]), rng.choice([3, 4])]
            if op[0] == "conv" and rng.random() < 0.5:
                op[1:3] = [rng.choice([3, 7, 9]), rng.choice([[2, 3], [1, 1], [4, 4], [8, 3]])]
            return op
    if r < 0.67:
        n = rng.choice([11, 20, 26, 33, 41, 45])
        return ["value", [rng.choice([n, n - 2, n % 2, -(n % 2 + 4)]), n], rng.choice(["polynomial_value", "radial", "radial_dr"]), rng.choice([0, 1, 9]), rng.choice(["C", "list", "f32"])]
    if r < 0.72:
        p = K.gen_pols(rng, 0.3)
        return ["acc", p, K.gen_phys(rng, len(p)), rng.choice(STAND), rng.choice([None, True, False]), rng.random() < 0.4, rng.random() < 0.5]
    if r < 0.88:
        return ["bad", rng.choice(BAD)]
    return ["plots", rng.choice(PLOTS), rng.randrange(4)]


def gen(rng, idx):
    r = rng.random()
    user = rng.sample(USER, rng.choice([0, 1, 3, 6]))
    if r < 0.02:
        return {"mode": "import", "user": user, "cpu": rng.choice([1, 2, 4, 8]), "numba": rng.choice(["absent", "importerror", "oserror", "attrerror", "none-entry", "stub", "pyjit", "lazyfail"]), "faults": []}
    if r < 0.55:
        ops = []
        for _ in range(rng.randrange(1, 6)):
            ops.append([gen_any(rng), rng.choice([None, None] + KINDS)])
        return {"mode": "hist", "user": user, "ops": ops, "faults": []}
    if r < 0.72:
        case = c13.gen(rng, idx)
        while len(case["threads"]) < 2:
            case = c13.gen(rng, idx)
        return dict(case, mode="thr", user=user, twice=False, scribble=False)
    if r < 0.9:
        pols = K.gen_pols(rng, 0.4)
        case = {"mode": "fs", "user": user, "pols": pols, "set": S.gen_settings(rng, pols, S.gen_amp(rng, pols)), "dirname": rng.choice(S.DIRNAMES), "ops": [], "faults": []}
        for _ in range(rng.randrange(1, 5)):
            k = rng.choice(["save", "save", "read", "read"])
            case["ops"].append([k, rng.choice(S.FOLDERS + (["missing"] if k == "save" else [])), rng.random() < 0.7,
                                S.gen_fault(rng, "S0" if k == "save" else "R0", ("errno", "errno", "int", "memory")) if rng.random() < 0.85 else None,
                                rng.choice([None, None, "cut", "text", "absent", "key", "value"]), rng.choice([0, 0, 1, 3])])
        return case
    if r < 0.95:
        case = dict(P.gen_plan(rng, 6), mode="pool", user=user, timing=P.gen_timing(rng), faults=P.gen_stalls(rng, 2))
    else:
        pols = K.gen_pols(rng, 0.1)
        case = {"mode": "par", "user": user, "pols": pols, "phys": K.gen_phys(rng, len(pols)), "timing": P.gen_timing(rng), "faults": P.gen_stalls(rng, 2)}
    m = rng.choice(["int", "int", "memory", "kill", "refuse", "job", "none"])
    if m == "kill":
        case["faults"].append({"kind": "kill_self", "task": f"W{rng.randrange(3)}", "where": rng.choice(["before", "after"]), "op": rng.randrange(0, 100)})
    elif m == "refuse":
        case["faults"].append({"kind": "refuse-start", "n": rng.randrange(4)})
    elif m == "job":
        case["job"] = rng.randrange(6)
    elif m != "none":
        case["faults"].append({"kind": "interrupt" if m == "int" else "memory", "task": "P", "where": rng.choice(["before", "after"]), "op": rng.randrange(0, 300 if case["mode"] == "pool" else 1500)})
    return case


def directed():
    for m in ("absent", "importerror", "oserror", "attrerror", "none-entry", "stub", "pyjit", "lazyfail"):
        for user in (USER, []):
            yield {"mode": "import", "user": user, "cpu": 4, "numba": m, "faults": [], "seed": 1}
    psf = ["psf", [4], {"NA": 0.1, "wl": 0.5, "px": 1.0, "a": 0.17}, [3, 20, 36], True, "uint8", True]
    fit = ["fit", [[0, 0], [0, 2], [1, 1]], [0.5, -0.3, 0.7], 9, 9, 1.0, False, True, "float64", "C", 9]
    some = [psf, fit, ["sum", [[2, 2], [1, 3]], [0.4, -1.0], "list", "C", True, 5], ["phases", [[2, 2]], [0.4], 9, 9], ["conv", 3, [6, 6], "uint8", "C", True, 5], ["crop", 7, 0.05, 6],
            ["save", [4], {"NA": 0.1, "wl": 0.5, "px": 1.0, "a": 0.17}, [3, 20, 36], 7], ["plot", [[2, 2]], [1.0]], ["rand", 2, 5, 5], ["rand", 0, 5, 5], ["rand", 5, 3, 3], ["rand", 9, 3, 3],
            ["conv", 7, [2, 3], "float32", "C", False, 5]]
    for i, user in enumerate((USER[:-1], [], [u for u in USER if u not in ("gc", "nogc")])):
        for op in some:
            for kind in [None] + sorted(set(KINDS)):
                yield {"mode": "hist", "user": user, "ops": [[op, kind]], "faults": [], "seed": 3 + i}
        for m in sorted(set(STAND)):
            for ps in ([4], [1, 5]):
                for kind in (None, "warning", "numeric", "stack"):
                    yield {"mode": "hist", "user": user, "faults": [], "seed": 4,
                           "ops": [[["acc", ps, {"NA": 0.1, "wl": 0.5, "px": 1.0, "a": 0.17 if len(ps) == 1 else [0.1, 0.2]}, m, True, i == 0, i == 1], kind]]}
        for b in BAD:
            yield {"mode": "hist", "user": user, "ops": [[["bad", b], None], [["bad", b], "warning"]], "faults": [], "seed": 5}
        for p in PLOTS:
            for kind in (None, "KeyboardInterrupt", "MemoryError", "warning", "stack"):
                yield {"mode": "hist", "user": user, "ops": [[["plots", p, n], kind] for n in range(2)], "faults": [], "seed": 6}


# ---------------------------------------------------------------------------------------------------------- calls
def perform(z, op, folder):
    """One call of the user; everything it raises is passed on."""
    k = op[0]
    if k == "rand":
        return z.zernikepol.generate_random_phases(*op[1:4])
    if k == "bad":
        return refused(z, op[1], folder)
    if k == "acc":
        other = env.load(cpu=z.cpu, numba=op[3])
        obj = K.make_obj(other, op[1])
        K.set_phys(obj, op[2])
        obj.set_calculation_props(3, 20, 36)
        return obj.calculate_psf_kernel(accelerated=op[4], verbose_info=op[5], suppress_warnings=op[6])
    if k == "plots":
        return plots(z, op[1], op[2])
    return c13.perform(z, op, c13.Inputs(z), folder)


def refused(z, what, folder):
    pol = z.ZernPol(m=0, n=2)
    psf = z.ZernPSF(pol)
    mod = z.zernikepol
    if what == "pol-orders":
        z.ZernPol(m=3, n=2)
    elif what == "pol-index":
        z.ZernPol(osa=-2)
    elif what == "pol-args":
        z.ZernPol(osa=3, m=1)
    elif what == "radius":
        pol.polynomial_value(1.7, 0.2)
    elif what == "text":
        pol.polynomial_value("a", "b")
    elif what == "sum-lengths":
        z.ZernPol.sum_zernikes([1.0, 2.0], [pol], 0.1, 0.2)
    elif what == "fit-3d":
        mod.fit_polynomials(np.zeros((5, 5, 3, 2)), (pol,))
    elif what == "fit-few":
        mod.fit_polynomials(np.zeros((5, 5)), (), crop_radius=-1.0)
    elif what == "NA":
        psf.set_physical_props(-0.1, 0.5, 0.1, 0.1)
    elif what == "wavelength":
        psf.set_physical_props(0.1, 0.0, 0.1, 0.1)
    elif what == "amps":
        psf.set_physical_props(0.1, 0.5, [0.1, 0.2], 0.1)
    elif what == "points":
        psf.set_calculation_props(5, 3, 4)
    elif what == "size":
        psf.set_calculation_props(-4, 30, 40)
    elif what == "image-3d":
        psf.convolute_img(np.zeros((4, 4, 3)))
    elif what == "image-none":
        psf.convolute_img(None)
    elif what == "read-none":
        psf.read_json()
    elif what in ("read-text", "read-missing"):
        path = os.path.join(folder, "some.json")
        if what == "read-text":
            with open(path, "w") as f:
                f.write("{ not json")
        try:
            psf.read_json(path)
        finally:
            if os.path.exists(path):
                os.unlink(path)
    elif what == "save-number":
        psf.save_json(abs_path=5.0)
    elif what == "generate":
        mod.generate_polynomials(-3)
    elif what == "noll":
        z.ZernPol.noll2osa(-1)
    elif what == "phases-zero":
        mod.generate_phases_image((pol,), (0.1, 0.2), 0, -3)
    elif what == "surface":
        z.ZernPol.gen_zernikes_surface([1.0], [pol], r_step=5.0, theta_rad_step=9.0)
    elif what == "figure":
        z.ZernPol.plot_sum_zernikes_on_fig(None, [1.0], [pol])
    elif what == "parallel":
        psf.set_physical_props(0.1, 0.5, 0.1, 1.0)
        psf.set_calculation_props(3, 20, 36)
        psf.get_kernel_parallel()
    elif what == "deinit":
        psf.deinitialize_workers()
    else:
        z.ZernPSF([])


def plots(z, what, n):
    pol = z.ZernPol(m=-1, n=1) if n % 2 else z.ZernPol(m=0, n=2)
    psf = z.ZernPSF(pol)
    psf.set_physical_props(0.1, 0.5, 0.1, 1.0)
    psf.set_calculation_props(3, 20, 36)
    psf.kernel = np.full((3, 3), 0.5)
    if what == "show":
        psf.plot_kernel("" if n < 2 else "c17")
    elif what == "visualize":
        psf.visualize_convolution(3.0, 180)
    elif what == "profile":
        z.ZernPol.plot_profile(pol, color_map="jet" if n < 2 else "coolwarm", show_title=bool(n % 2), projection="3d" if n == 3 else "2d")
    elif what == "initialize":
        psf.calculate_psf_kernel(suppress_warnings=True, accelerated=False)
        psf.plot_kernel("after")
    else:
        import matplotlib.figure
        z.ZernPol.plot_sum_zernikes_on_fig(matplotlib.figure.Figure(), coefficients=[0.4, -0.3], polynomials=[pol, z.ZernPol(m=2, n=2)], show_range=n > 1,
                                           projection="3d" if n == 3 else "2d")


# ----------------------------------------------------------------------------------------------------------- runs
def run(case, res):
    root = fssim.scratch("c17")
    first = Ambient()
    states = random.getstate(), np.random.get_state()
    dec = decimal.getcontext().copy()
    try:
        with env.quiet():
            import matplotlib.pyplot as plt
            plt.close("all")
            gc.enable(); gc.set_threshold(0, 10, 10)           # enabled, but collecting nothing by itself: runs stay repeatable
            random.seed(case["seed"]); np.random.seed(case["seed"] % 2**32)
            _user(case["user"])
            for m in sorted({o[0][3] for o in case.get("ops", ()) if o[0][0] == "acc"}):
                env.load(cpu=4, numba=m), env.load(cpu=8, numba=m)
            {"hist": run_hist, "thr": run_thr, "fs": run_fs, "pool": run_pool, "par": run_pool, "import": run_import}[case["mode"]](case, res, root)
    finally:
        decimal.setcontext(dec)
        random.setstate(states[0]); np.random.set_state(states[1])
        import matplotlib.pyplot as plt
        plt.close("all")
        first.restore()
        fssim.remove(root)


def run_import(case, res, root):
    res.nontrivial = True
    probe = []

    def at(stage):
        if stage == "before":
            probe.append(Ambient())
        else:
            probe[0].check(f"import with numba {case['numba']} and {case['cpu']} CPUs", ("sys.path",))
    kept = dict(env._cache)
    try:
        env.load(cpu=case["cpu"], numba=case["numba"], fresh=True, probe=at)
    finally:
        env._cache.clear(); env._cache.update(kept)
    res.note("import", case["numba"], case["cpu"], *case["user"])
    res.choices = []


def run_hist(case, res, root):
    z2 = env.load(cpu=8, numba="absent")
    z = env.load(cpu=4, numba="absent")
    ch = chooser_for(case)
    figs = Figures("figures" in case["user"])
    hits = 0
    with procsim.use_clock(procsim.SimClock("calm", ch)):
        for n, (op, kind) in enumerate(case["ops"]):
            drawing = op[0] == "plots"
            tag = []
            amb = Ambient()

            def call(x):
                try:
                    return perform(x, op, root)
                finally:
                    for f in os.listdir(root):
                        p = os.path.join(root, f)
                        if os.path.isfile(p):
                            os.unlink(p)
            skip = set()
            if op[0] == "rand":
                skip.add("random state")
            if drawing:
                skip.add("matplotlib interactive")

            def dry():
                try:
                    return call(z2)
                finally:
                    figs.tidy()
            if kind is None:
                try:
                    call(z)
                    fired, out = False, "ok"
                except Exception as e:
                    e.__traceback__ = None
                    fired, out = True, type(e).__name__
                tag.append("-")
            else:
                fired, o = c10.disturbed_call(ch, res, kind, dry, lambda: call(z), tag)
                out = o[0] if o[0] == "ok" else type(o[1]).__name__
                o = None
            where = f"operation {n} {op[0]} {op[1] if op[0] in ('bad', 'plots') else ''} ({kind} at {tag[0]}: {out})"
            amb.check(where, skip)
            figs.check(where, drawing)
            if drawing:
                figs.tidy()
            z2.activate(); z.activate()
            hits += fired or op[0] == "bad"
            res.note(op[0], op[1] if op[0] in ("bad", "plots") else "", kind, tag, out)
            res.count(f"op:{op[0]}")
            if fired and kind:
                res.count(f"fault:{kind}")
    figs.close()
    res.nontrivial = hits > 0
    res.choices = ch.record


def run_thr(case, res, root):
    z = env.load(cpu=4, numba="absent")
    ch = chooser_for(case)
    figs = Figures("figures" in case["user"])
    amb = Ambient()
    skip = {"random state"} if any(o[0] == "rand" for ops in case["threads"] for o in ops) else set()
    sim = ThreadSim(ch, res, case["strategy"])
    own = []

    def body(i):
        folder = os.path.join(root, f"t{i}")
        os.mkdir(folder)

        def go():
            mine = np.geterr(), decimal.getcontext().prec
            for op in case["threads"][i]:
                try:
                    perform(z, op, folder)
                except (ValueError, TypeError, np.linalg.LinAlgError, MemoryError):
                    pass
                for f in os.listdir(folder):
                    os.unlink(os.path.join(folder, f))
                if (np.geterr(), decimal.getcontext().prec) != mine:
                    raise Violation("changed-numpy-error-handling", f"thread {i}, {op[0]}: {mine} -> {np.geterr()}")
            own.append(i)
        return go
    tasks = [sim.add(f"T{i}", body(i)) for i in range(len(case["threads"]))]
    for t, n, kind in case["strike"]:
        tasks[t].strike = (n, MemoryError)
    sim.run()
    res.choices = ch.record
    for t in tasks:
        if isinstance(t.error, Violation):
            raise t.error
    res.steps += sum(t.hits for t in tasks)
    res.count("switches", sim.switches)
    res.nontrivial = sim.switches > 0
    amb.check("threads with " + ", ".join(o[0] for ops in case["threads"] for o in ops), skip)
    figs.check("threads", False)
    figs.close()


def run_fs(case, res, root):
    z = env.load(cpu=4, numba="absent")
    w = S.World(case, res, "c17fs")
    figs = Figures("figures" in case["user"])
    hits = 0
    try:
        obj = S.make(z, case["pols"], case["set"])
        raw, name = w.ref_save(obj)
        if raw is None:
            raise Violation("unexpected-error", f"save without any fault: {w.error}")
        for n, (k, folder, over, fault, damage, short) in enumerate(case["ops"]):
            arg, real = w.folder(folder)
            path = os.path.join(w.dir, name)
            if k == "read" and damage != "absent":
                data = {"cut": raw[:len(raw)//2], "text": b"no json", "key": raw.replace(b'"NA"', b'"N"'), "value": raw.replace(b'"NA": ', b'"NA": -')}.get(damage, raw)
                with open(path, "wb") as f:
                    f.write(data)
            elif k == "read" and os.path.exists(path):
                os.unlink(path)
            amb = Ambient()
            sim = fssim.FsSim(w.ch, res, w.root, [fault] if fault else [], 2, short, w.pkg_saved)
            out = []
            held = []

            def body():
                inside = Ambient({"open files", "running threads", "open"})
                try:
                    if k == "save":
                        obj.save_json(abs_path=arg, overwrite=over)
                    else:
                        obj.read_json(path)
                    out.append("ok")
                except (Exception, KeyboardInterrupt) as e:
                    e.__traceback__ = None
                    out.append(type(e).__name__)
                inside.check(f"operation {n} {k} ({fault}: {out[-1]})")
                if not any(f[0] != "errno" or f[2:4] == ("open", "after") for f in sim.fired):
                    if sim.fds:
                        gc.collect()
                    held.extend(sim.fds.values())
            sim.add("S0" if k == "save" else "R0", body, 2001, 7000)
            sim.run(); sim.finish()
            e = sim.tasks[0].error
            if e is not None and not isinstance(e, (Stop,)):
                raise e
            where = f"operation {n} {k} ({fault}, file {damage}: {out})"
            if held:
                raise Violation("changed-open-files", f"{where} left files open: {held}")
            amb.check(where)
            figs.check(where, False)
            hits += sim.fault_hits > 0 or damage is not None
            res.note(k, folder, over, out, sim.fault_hits)
            res.count(f"op:{k}-with-faults")
    finally:
        figs.close()
        w.close()
    res.nontrivial = hits > 0
    res.choices = w.ch.record


def run_pool(case, res, root):
    z = env.load(cpu=case["cpu"] if case["mode"] == "pool" else 8, numba="absent")
    sim = P.new_sim(case, res, max_time=600.0, max_steps=1_000_000)
    sim.busy_budget = 6_000_000
    bad = []
    stage = ["start"]

    def step(what, fn):
        stage[0] = what
        amb = Ambient(SHARED_WITH_WORKERS)
        try:
            fn()
            out = "ok"
        except (Exception, KeyboardInterrupt) as e:
            e.__traceback__ = None
            out = type(e).__name__
        amb.check(f"{what} ({out})")

    def pool():
        log = []
        job = P.Job(0, case["flav"], log, P.DURSETS[case["durset"]], {case["job"]} if "job" in case else None, lambda n: ValueError(n))
        box = {}
        n = case["rounds"][0]["n"]
        params = P.make_params(case["pflav"], n, 1)
        kw = {"n_workers": case["n_workers"]} if case["n_workers"] is not None else {}
        step("DispenserManager()", lambda: box.update(d=z.DispenserManager(compute_func=job, params_list=params, verbose_info=case["verbose"], **kw)))
        if "d" in box:
            d = box["d"]
            step("compute", lambda: d.compute())
            for i, r in enumerate(case["rounds"][1:]):
                if r["update"]:
                    step("update_params", lambda: d.update_params(P.make_params(case["pflav"], r["n"], i + 2)))
                step("compute again", lambda: d.compute())
            step("close", lambda: d.close())

    def par():
        obj = K.make_obj(z, case["pols"])
        K.set_phys(obj, case["phys"])
        obj.set_calculation_props(3, 20, 36)
        step("initialize_parallel_workers", obj.initialize_parallel_workers)
        step("get_kernel_parallel", obj.get_kernel_parallel)
        step("deinitialize_workers", obj.deinitialize_workers)

    def program():
        try:
            (pool if case["mode"] == "pool" else par)()
        except Violation as v:
            bad.append(v)
    why = sim.run(program)
    P.finish(sim, case, res)
    if bad:
        raise bad[0]
    res.nontrivial = bool(sim.fired)
    res.note("pool", case["mode"], stage[0], why)

"""Imports the code under test (/repo/src/zernpy) with its sources of nondeterminism behind seams.

 * `multiprocessing` is the simulator's stand-in (procsim) while zernpy is imported and afterwards,
 * the number of CPUs is a parameter of the load,
 * time.sleep / clocks dispatch to the active simulation,
 * the optional libraries (numba, joblib) can be present, absent or broken.
Nothing in zernpy is changed; each distinct configuration is imported once per process and memoised."""
import gc
import importlib
import importlib.abc
import io
import os
import sys
import types
import warnings
from pathlib import Path

os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

import numpy as np  # noqa: E402

REPO_SRC = Path(os.environ.get("ZSIM_REPO_SRC", "/repo/src")).resolve()
_cfg = {"cpu": None}
_cache = {}
_real_cpu_count = os.cpu_count
_preloaded = False
_fake_mods = None
PKG_DIR = str(REPO_SRC / "zernpy") + os.sep


def is_subject(code):
    return code.co_filename.startswith(PKG_DIR)


def preload(numba=False):
    """Import third-party packages before any seam is installed."""
    global _preloaded
    if not _preloaded:
        import matplotlib.pyplot  # noqa
        import scipy.special, scipy.ndimage, scipy.interpolate  # noqa
        import json, queue, multiprocessing, multiprocessing.queues, concurrent.futures  # noqa
        import importlib.metadata  # noqa
        from . import procsim
        procsim.install_time_dispatch()
        procsim.install_busy_guard(is_subject)
        os.cpu_count = _cpu_count
        if hasattr(os, "process_cpu_count"):
            os.process_cpu_count = _cpu_count
        real_aff = os.sched_getaffinity
        os.sched_getaffinity = lambda pid: set(range(_cfg["cpu"] or 1)) if _cfg["cpu"] != "real" and _cfg["on"] else real_aff(pid)
        sys.unraisablehook = lambda u: None
        _install_locks()
        _preloaded = True
    if numba and "numba" not in sys.modules:
        try:
            import numba  # noqa
        except ImportError:
            pass


def _install_locks():
    """Locks created by the package know about the simulated threads."""
    import threading
    from . import thrsim
    real = {n: getattr(threading, n) for n in ("Lock", "RLock")}
    sim = {"Lock": thrsim.SimLock, "RLock": thrsim.SimRLock}

    def make(n):
        def factory(*a, **k):
            if is_subject(sys._getframe(1).f_code):
                return sim[n]()
            return real[n](*a, **k)
        factory.__name__ = n
        return factory
    for n in real:
        setattr(threading, n, make(n))


_cfg["on"] = False


def _cpu_count():
    return _cfg["cpu"] if _cfg["on"] else _real_cpu_count()


class _Blocker(importlib.abc.MetaPathFinder):
    def __init__(self, names):
        self.names = names          # {package: exception factory}

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top in self.names:
            raise self.names[top](name)
        return None


def _copy(v, depth=0):
    if depth > 4:
        return v
    t = type(v)
    if t is list:
        return [_copy(x, depth + 1) for x in v]
    if t is dict:
        return {k: _copy(x, depth + 1) for k, x in v.items()}
    if t is set:
        return set(v)
    if t is np.ndarray:
        return v.copy()
    return v


_CONT = (list, dict, set, np.ndarray)


def _restore(obj, saved, originals, depth=0):
    """Bring container `obj` back to the content `saved` (a copy), in place."""
    t = type(obj)
    if t is np.ndarray:
        if obj.shape == saved.shape and obj.flags.writeable:
            obj[...] = saved
        return
    if t is set:
        if obj != saved:
            obj.clear(); obj.update(saved)
        return
    try:
        if obj == saved:
            return
    except Exception:
        pass
    obj.clear()
    if t is list:
        obj.extend(_copy(saved))
    else:
        obj.update(_copy(saved))


class Snapshot:
    """State of all modules, classes and functions of the package."""

    def __init__(self, mods):
        self.spaces = []
        self.caches = []
        seen = set()
        for name, m in mods.items():
            self._space(m, seen)

    def _space(self, owner, seen):
        if id(owner) in seen:
            return
        seen.add(id(owner))
        d = dict(vars(owner))
        entry = {}
        for k, v in d.items():
            if k in ("__dict__", "__weakref__", "__builtins__", "__spec__", "__loader__", "__warningregistry__"):
                continue
            entry[k] = (v, _copy(v) if type(v) in _CONT else None)
            f = getattr(v, "__func__", v)
            if isinstance(v, type) and getattr(v, "__module__", "").startswith("zernpy"):
                self._space(v, seen)
            if isinstance(f, types.FunctionType) and (f.__module__ or "").startswith("zernpy"):
                if f.__defaults__ and any(type(x) in _CONT for x in f.__defaults__):
                    for x in f.__defaults__:
                        if type(x) in _CONT:
                            self.caches.append(("cont", x, _copy(x)))
                if f.__dict__:
                    self._space(f, seen) if id(f) not in seen else None
            if hasattr(v, "cache_clear") and hasattr(v, "__wrapped__"):
                self.caches.append(("lru", v, None))
        self.spaces.append((owner, entry))

    def restore(self):
        for owner, entry in self.spaces:
            cur_ns = vars(owner)
            for k in [k for k in cur_ns if k not in entry]:
                if k in ("__dict__", "__weakref__", "__builtins__", "__spec__", "__loader__"):
                    continue
                if k == "__warningregistry__":
                    cur_ns[k].clear() if isinstance(cur_ns, dict) else None
                    continue
                if isinstance(owner, types.ModuleType) and isinstance(cur_ns[k], types.ModuleType):
                    continue
                try:
                    delattr(owner, k)
                except (AttributeError, TypeError):
                    pass
            for k, (v, saved) in entry.items():
                if cur_ns.get(k, entry) is not v:
                    try:
                        setattr(owner, k, v)
                    except (AttributeError, TypeError):
                        pass
                if saved is not None:
                    _restore(v, saved, None)
        for kind, obj, saved in self.caches:
            if kind == "lru":
                obj.cache_clear()
            else:
                _restore(obj, saved, None)


class Zern:
    """One imported instance of the package."""

    def __init__(self, mods, cpu):
        self.mods = mods
        self.cpu = cpu
        self.pkg = mods["zernpy"]
        self.zernpsf = mods["zernpy.zernpsf"]
        self.zernikepol = mods["zernpy.zernikepol"]
        self.calc_psfs = mods["zernpy.calculations.calc_psfs"]
        self.intmproc = mods.get("zernpy.utils.intmproc")
        self.numba_mod = mods.get("zernpy.calculations.calc_psfs_numba")
        self.ZernPol = self.zernikepol.ZernPol
        self.ZernPSF = self.zernpsf.ZernPSF
        self.DispenserManager = self.zernpsf.DispenserManager

        self._snap = Snapshot(mods)

    def reset(self):
        """Undo every change earlier runs made to module- or class-level state of the package."""
        self._snap.restore()
        return self

    def activate(self):
        """Make sys.modules and the CPU count agree with this instance."""
        from . import procsim
        _cfg["cpu"] = self.cpu
        _cfg["on"] = True
        for k in [k for k in sys.modules if k == "zernpy" or k.startswith("zernpy.")]:
            if sys.modules[k] is not self.mods.get(k):
                del sys.modules[k]
        sys.modules.update(self.mods)
        sys.modules.update(_fake_mods)
        return self.reset()


def _exc(kind):
    table = {
        "absent": lambda n: ModuleNotFoundError(f"No module named '{n}'", name=n),
        "importerror": lambda n: ImportError(f"{n} needs NumPy 2.2 or less. Got NumPy 2.3."),
        "oserror-dll": lambda n: ImportError(f"DLL load failed while importing {n}"),
        "oserror": lambda n: OSError(f"libLLVM.so: cannot open shared object file (needed by {n})"),
        "attrerror": lambda n: AttributeError("module 'numpy' has no attribute 'long'"),
        "syserror": lambda n: SystemError("initialization of _internal failed without raising an exception"),
        "runtime": lambda n: RuntimeError("cannot cache function: no locator available"),
        "valueerror": lambda n: ValueError("numpy.dtype size changed, may indicate binary incompatibility"),
    }
    return table[kind]


# stand-ins for the optional libraries: mode -> function creating the module
STANDINS = {}


class _Metadata:
    """importlib.metadata.version as the mode wants it."""

    def __init__(self, mode):
        self.mode = mode

    def __enter__(self):
        import importlib.metadata as md
        self.real = md.version
        if self.mode.endswith("/nometa"):
            def version(name):
                if name in ("numba", "joblib"):
                    raise md.PackageNotFoundError(name)
                return self.real(name)
        elif "/v" in self.mode:
            v = self.mode.split("/v")[1]
            version = lambda name: v if name in ("numba", "joblib") else self.real(name)
        elif self.mode in STANDINS:
            version = lambda name: "0.60.0" if name in ("numba", "joblib") else self.real(name)
        else:
            version = self.real
        md.version = version

    def __exit__(self, *a):
        import importlib.metadata as md
        md.version = self.real


def load(cpu=8, numba="present", joblib="asis", fresh=False, probe=None):
    """Import zernpy in the given configuration. numba: present | absent | importerror | partial... probe("before" / "after") is called around the import."""
    global _fake_mods
    preload(numba=(numba == "present"))
    key = (cpu, numba, joblib)
    if not fresh and key in _cache:
        return _cache[key].activate()
    from . import procsim
    if _fake_mods is None:
        _fake_mods = procsim.make_module(_cpu_count)
    saved = {k: v for k, v in sys.modules.items() if k == "multiprocessing" or k.startswith("multiprocessing.")}
    for k in [k for k in sys.modules if k == "zernpy" or k.startswith("zernpy.")]:
        del sys.modules[k]
    _cfg["cpu"] = cpu
    _cfg["on"] = True
    block = {}
    hidden = {}
    for name, mode in (("numba", numba), ("joblib", joblib)):
        if mode in ("present", "asis"):
            continue
        for k in [k for k in sys.modules if k == name or k.startswith(name + ".")]:
            hidden[k] = sys.modules.pop(k)
        if isinstance(mode, str) and mode == "none-entry":
            sys.modules[name] = None
        elif mode.split("/")[0] in STANDINS:
            sys.modules[name] = STANDINS[mode.split("/")[0]](name)
        elif isinstance(mode, str) and mode.startswith("stub"):
            sys.modules[name] = types.ModuleType(name)     # importable, but lacks everything (shadowing package)
        else:
            block[name] = _exc(mode)
    blocker = _Blocker(block)
    sys.modules.update(_fake_mods)
    sys.meta_path.insert(0, blocker)
    if str(REPO_SRC) not in sys.path:
        sys.path.insert(0, str(REPO_SRC))
    try:
        with warnings.catch_warnings(), _Metadata(numba):
            warnings.simplefilter("ignore")
            if probe:
                probe("before")
            importlib.import_module("zernpy")
            for sub in ("zernpsf", "zernikepol", "calculations.calc_psfs", "utils.intmproc"):
                importlib.import_module("zernpy." + sub)
            if probe:
                probe("after")
    finally:
        sys.meta_path.remove(blocker)
        for name in ("numba", "joblib"):
            mode = numba if name == "numba" else joblib
            if name in block or sys.modules.get(name, 0) is None or name in hidden or mode.split("/")[0] in STANDINS or mode.startswith("stub"):
                for k in [k for k in sys.modules if k == name or k.startswith(name + ".")]:
                    del sys.modules[k]
        sys.modules.update(hidden)
    mods = {k: v for k, v in sys.modules.items() if k == "zernpy" or k.startswith("zernpy.")}
    f = getattr(mods["zernpy"], "__file__", "")
    if not str(Path(f).resolve()).startswith(PKG_DIR):
        raise RuntimeError(f"zernpy imported from {f}, not from {REPO_SRC}")
    z = Zern(mods, cpu)
    _cache[key] = z
    return z.activate()


class quiet:
    """Silences print and collects warnings."""

    def __init__(self, as_errors=False):
        self.as_errors = as_errors

    def __enter__(self):
        self._out = sys.stdout
        sys.stdout = self.out = io.StringIO()
        self._cw = warnings.catch_warnings(record=not self.as_errors)
        self.list = self._cw.__enter__()
        warnings.simplefilter("error" if self.as_errors else "always")
        return self

    def __exit__(self, *a):
        self._cw.__exit__(*a)
        sys.stdout = self._out

    @property
    def messages(self):
        return [str(w.message) for w in (self.list or [])]


def arr_eq(a, b):
    a = np.asarray(a); b = np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def arr_close(a, b, rtol=1e-9, atol=1e-12):
    a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))

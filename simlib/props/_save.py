"""Worlds of files, savers and readers for the properties about saving and reading (C05 - C08)."""
import json
import os

import numpy as np

from .. import env, fssim
from ..choice import Chooser, chooser_for, derive_seed
from ..core import Violation
from ..thrsim import ALLOC, EVAL, Counting, Inject, SimCrash, Stop, instrument
from . import _psf as K

FOLDERS = ["str", "path", "link", "rel", "default"]


def gen_settings(rng, pols, a, sizes=(3, 3, 3, 3, 5)):
    """Accepted settings of a saver; the amplitudes are given, because they are part of the file name."""
    p = K.gen_phys(rng, len(pols))
    p["a"] = a
    size = rng.choice([13, 19, 31]) if rng.random() < 0.2 else rng.choice(sizes)
    return {"phys": p, "calc": [size, rng.choice([20, 22, 25]), rng.choice([36, 38, 40])], "norm": rng.random() < 0.7,
            "kernel": rng.randrange(1 << 30) if size > 5 or rng.random() < 0.9 else None}


def gen_amp(rng, pols):
    one = lambda: round(rng.choice([-1, 1])*rng.choice([0.03, 0.08, 0.11, 0.17]), 4)
    if len(pols) == 1:
        return one()
    a = [one() for _ in pols]
    if rng.random() < 0.15:
        a[rng.randrange(len(a))] = 0.0
    return a


OPS_ON = ["*", "*", "*", "write", "write", "open", "replace", "fsync", "close", "link", "unlink", "stat", "read"]


def gen_fault(rng, task, kinds=("crash", "crash", "errno", "errno", "errno", "int", "memory")):
    k = rng.choice(kinds)
    on = rng.choice(OPS_ON if task[0] == "S" else ["*", "open", "read", "read", "stat", "close"])
    f = {"kind": k, "task": task, "on": on, "n": rng.randrange(0, 36 if on == "*" else 12 if on == "stat" else 3 if rng.random() < 0.3 else 1),
         "where": rng.choice(["before", "after"])}
    if k == "errno":
        names = [e for e, ops in fssim.ALLOWED.items() if on == "*" or on in ops]
        if not names:
            f["on"] = "*"; names = list(fssim.ALLOWED)
        f["errno"] = rng.choice(names)
        f["where"] = "before" if rng.random() < 0.8 else "after"
        if rng.random() < 0.4:
            f["sticky"] = True
    if rng.random() < 0.5:
        f["torn"] = True
    return f


def make(z, pols, s, f32=False):
    obj = K.make_obj(z, pols)
    p = dict(s["phys"])
    if f32:
        p["NA"] = np.float32(p["NA"])
    K.set_phys(obj, p)
    obj.set_calculation_props(*s["calc"])
    if s["kernel"] is None:
        obj.calculate_psf_kernel(suppress_warnings=True, normalized=s["norm"], accelerated=False)
    else:                                                          # any kernel will do: files store what the object holds
        k = np.random.default_rng(s["kernel"]).random((s["calc"][0], s["calc"][0]))**4
        if s["norm"]:
            k /= k.max()
        else:
            k *= 1e-7
        obj.kernel = k
    return obj


def content(obj):
    """Everything a reader takes over."""
    return K.public(obj), np.array(obj.kernel)


def same_content(a, b):
    return not K.diff(a[0], b[0]) and env.arr_eq(np.asarray(a[1], float), np.asarray(b[1], float))


def explain(a, b):
    return K.diff(a[0], b[0]) or f"kernel differs (shapes {np.shape(a[1])}, {np.shape(b[1])})"


DIRNAMES = ["d"]*6 + ["saved psfs", "v1.2", "psfs.json", "\u00fcml\u00e4ut", "~d", "-d", "d%s{0}$HOME", "D" * 60]


class World:
    """Scratch area with the folder the files go to."""

    def __init__(self, case, res, tag):
        self.case, self.res = case, res
        self.root = fssim.scratch(tag)
        self.dir = os.path.join(self.root, case.get("dirname", "d"))
        if case.get("dirname", "d") != "d":
            os.rename(os.path.join(self.root, "d"), self.dir)
        os.symlink(self.dir, os.path.join(self.root, "dlink"))
        os.mkdir(os.path.join(self.root, "ref"))
        self.old_cwd = os.getcwd()
        os.chdir(os.path.join(self.root, "cwd"))
        self.pkg_saved = (os.path.join(env.PKG_DIR, "saved_psfs"), os.path.join(self.root, "pkg"))
        self.tmp_env = os.environ.get("TMPDIR")
        import tempfile
        tempfile.tempdir = os.path.join(self.root, "tmp")
        self.ch = chooser_for(case)
        self.side = Chooser(seed=derive_seed("side", case["seed"]))
        fssim.EXTRA.clear()

    def close(self):
        import tempfile
        tempfile.tempdir = None
        os.chdir(self.old_cwd)
        fssim.EXTRA.clear()
        fssim.remove(self.root)

    def folder(self, kind):
        """(argument for the caller, real directory)"""
        if kind == "path":
            return env.Path(self.dir), self.dir
        if kind == "link":
            return os.path.join(self.root, "dlink"), self.dir
        if kind == "rel":
            return os.path.join("..", os.path.basename(self.dir)), self.dir
        if kind == "default":
            return None, self.pkg_saved[1]
        if kind == "missing":
            return os.path.join(self.root, "absent"), os.path.join(self.root, "cwd", "saved_psfs")
        return self.dir, self.dir

    def calm(self, fn, pid=1001, ident=7001, count=None):
        """Run fn as the only task, without faults. Returns (value, exception)."""
        ch = Chooser(script=[])
        sim = fssim.FsSim(ch, _NoRes(), self.root, pkg_saved=self.pkg_saved)
        out = {}

        def body():
            try:
                if count is None:
                    out["v"] = fn()
                else:
                    c = Counting(count)
                    with c:
                        out["v"] = fn()
                    out["c"] = c
            except (Exception, KeyboardInterrupt) as e:
                e.__traceback__ = None
                out["e"] = e
        sim.add("S0", body, pid, ident)
        sim.run()
        sim.finish()
        if sim.outside:
            raise Violation("outside-write", f"file operations outside of the given folder: {sim.outside[:3]}")
        self.counted = out.get("c")
        return out.get("v"), out.get("e")

    def ref_save(self, obj, count=None):
        """Bytes and name of the file a fault-free save of obj makes (None, None: it raises)."""
        ref = os.path.join(self.root, "ref")
        for f in os.listdir(ref):
            os.unlink(os.path.join(ref, f))
        _, self.error = _, e = self.calm(lambda: obj.save_json(abs_path=env.Path(ref), overwrite=True), count=count)
        files = sorted(os.listdir(ref))
        js = [f for f in files if f.endswith(".json")]
        if e is not None:
            return None, None
        if len(js) != 1:
            raise Violation("no-file", f"a save without any fault left {files} in the given folder")
        with open(os.path.join(ref, js[0]), "rb") as f:
            return f.read(), js[0]


class _NoRes:
    simtime = 0.0

    def note(self, *a):
        pass

    def count(self, *a):
        pass


class Allowed:
    """Set of acceptable contents, compared as parsed data."""

    def __init__(self, contents):
        self.set = set()
        self.parsed = []
        self.absent = False
        self.memo = {}
        for c in contents:
            if c is None:
                self.absent = True
            else:
                self.set.add(c)
                try:
                    self.parsed.append(json.loads(c))
                except ValueError:
                    pass

    def ok(self, b):
        if b is None:
            return self.absent
        if b in self.set:
            return True
        r = self.memo.get(b)
        if r is None:
            try:
                r = json.loads(b) in self.parsed
            except ValueError:
                r = False
            self.memo[b] = r
        return r


def read_bytes(path):
    try:
        fd = fssim._R["open"](path, os.O_RDONLY)
    except FileNotFoundError:
        return None
    except OSError:
        return b"?"
    try:
        out = b""
        while True:
            b = fssim._R["read"](fd, 1 << 20)
            if not b:
                return out
            out += b
    finally:
        fssim._R["close"](fd)


def brief(b):
    if b is None:
        return "absent"
    return f"{len(b)} bytes: {b[:60]!r}...{b[-30:]!r}" if len(b) > 100 else repr(b)


class Injected:
    """Exception at one instruction boundary of the package while the save or read of a task runs."""

    def __init__(self, world, spec, counted):
        self.mask = EVAL if spec == "KeyboardInterrupt" else EVAL | ALLOC
        self.exc = KeyboardInterrupt if spec == "KeyboardInterrupt" else MemoryError
        self.target = counted.pick(world.ch) if counted is not None else None
        self.inj = None
        self.res = world.res

    def __enter__(self):
        if self.target is not None:
            self.inj = Inject(self.target, self.exc, self.mask)
            self.inj.__enter__()
        return self

    def __exit__(self, *a):
        if self.inj is not None:
            self.inj.__exit__(*a)
            if self.inj.fired:
                self.res.count("fault:" + ("interrupt-at-instruction" if self.exc is KeyboardInterrupt else "memory-at-instruction"))

    @property
    def fired(self):
        return self.inj is not None and self.inj.fired


def inst_mask(spec):
    return None if not spec else EVAL if spec == "KeyboardInterrupt" else EVAL | ALLOC

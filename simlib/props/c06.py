"""C06: what a successful save stored is restored completely by any reader."""
import json
import os

import numpy as np

from .. import env, fssim
from ..core import Violation
from ..thrsim import SimCrash, instrument
from . import _psf as K
from . import _save as S

ID = "C06"
LEVEL = "exploration"
RULE = "run counts as non-trivial when a save succeeded and its file was read into an object with a different history; distinct = distinct event-sequence hash"
QUICK_RUNS, THOROUGH_RUNS = 1600, 40000
POLS = K.SINGLES + [[44], [54], [27]]


def setup():
    for c in (4, 8):
        instrument(env.load(cpu=c, numba="absent"), env.is_subject)


AMPFORM = ["plain", "plain", "plain", "np64", "np32", "int", "list", "tuple", "array"]


def gen_history(rng, n_pols, long):
    """Operations that bring an object into some state."""
    ops = []
    for _ in range(rng.randrange(1, 6 if long else 4)):
        k = rng.choice(["phys", "phys", "calc", "kernel", "rand", "crop", "size", "badphys", "badcalc", "read", "badread"])
        if k == "phys":
            ops.append(["phys", K.gen_phys(rng, n_pols), rng.choice(AMPFORM)])
        elif k == "calc":
            ops.append(["calc", K.gen_calc(rng)])
        elif k == "badphys":
            p = K.gen_phys(rng, n_pols); p[rng.choice(["NA", "wl", "px"])] = -1.0
            ops.append(["badphys", p])
        elif k == "badcalc":
            ops.append(["badcalc", [3, 20, 10]])
        elif k == "rand":
            ops.append(["rand", rng.randrange(1 << 30), rng.choice([3, 5, 7, 9])])
        elif k == "crop":
            ops.append(["crop", rng.choice([0.01, 0.1, 0.4])])
        elif k == "size":
            ops.append(["size", rng.choice([3, 4, 5])])
        elif k == "kernel":
            ops.append(["kernel", rng.random() < 0.6])
        elif k == "read":
            pols = rng.choice(K.SINGLES + K.MULTIS)
            ops.append(["read", list(pols), S.gen_settings(rng, pols, S.gen_amp(rng, pols))])
            n_pols = len(pols)
        else:
            ops.append([k])
    return ops


def gen(rng, idx):
    pols = list(rng.choice(K.MULTIS if rng.random() < 0.35 else POLS))
    ops = [["phys", K.gen_phys(rng, len(pols), rng.random() < 0.85), rng.choice(AMPFORM)], ["calc", K.gen_calc(rng, (3, 3, 5))]]
    hist = gen_history(rng, len(pols), True) if rng.random() < 0.7 else []
    case = {"pols": pols, "ops": ops + hist + ([["rand", rng.randrange(1 << 30), rng.choice([3, 5, 7, 21])]] if rng.random() < 0.5 else [["kernel", True]]),
            "seq": rng.choice([None, None, "list", "tuple"]), "folder": rng.choice(S.FOLDERS + ["missing"]), "overwrite": rng.random() < 0.7,
            "pre": rng.choice(["none", "none", "same-name", "garbage"]), "crash": rng.random() < 0.4,
            "short": rng.choice([0, 0, 1]), "faults": [S.gen_fault(rng, "S0", ("errno", "errno", "int"))] if rng.random() < 0.3 else []}
    rp = list(rng.choice(K.SINGLES + K.MULTIS))
    case["rpols"] = rp
    case["reader_ops"] = ([["phys", K.gen_phys(rng, len(rp)), "plain"]] if rng.random() < 0.7 else []) + gen_history(rng, len(rp), False)
    case["as_path"] = rng.random() < 0.5
    case["via_attr"] = rng.random() < 0.2
    case["next"] = rng.choice(["kernel", "kernel", "phys", "calc"])
    case["next_phys"] = K.gen_phys(rng, len(pols))
    case["huge"] = rng.random() < 0.1
    case["dirname"] = rng.choice(S.DIRNAMES)
    case["again"] = rng.choice(["", "", "kernel", "phys", "calc", "same"])
    case["coarse"] = rng.random() < 0.6
    case["again_by"] = rng.choice(["writer", "writer", "reader"])
    case["again_in"] = rng.choice(["reader", "reader", "new", "writer"])
    return case


def directed():
    ph = lambda n: {"NA": 0.1, "wl": 0.5, "px": 1.0, "a": 0.1 if n == 1 else [0.1]*n}
    base = {"seq": None, "folder": "str", "overwrite": True, "pre": "none", "crash": True, "short": 0, "faults": [], "as_path": False, "via_attr": False,
            "next": "kernel", "huge": False, "seed": 3, "again": "kernel", "coarse": True, "again_by": "writer", "again_in": "reader"}
    for wp in ([4], [0], [1, 4], [0, 4]):
        for rp in ([7], [0], [3, 5], [2, 5, 6, 14]):
            yield dict(base, pols=wp, ops=[["phys", ph(len(wp)), "plain"], ["calc", [3, 21, 37]], ["kernel", True]], rpols=rp,
                       reader_ops=[["phys", ph(len(rp)), "plain"], ["calc", [5, 20, 36]], ["kernel", False]], next_phys=ph(len(wp)))


def form(a, how):
    if isinstance(a, list):
        return {"np64": [np.float64(x) for x in a], "np32": [float(np.float32(x)) for x in a], "tuple": tuple(a), "array": np.array(a)}.get(how, list(a))
    if how == "np64":
        return np.float64(a)
    if how == "np32":
        return np.float32(a)
    if how == "int":
        return 1 if a > 0 else -1
    if how == "list":
        return [a]
    if how == "tuple":
        return (a,)
    if how == "array":
        return np.array([a])
    return a


def apply(w, z, obj, ops):
    """Returns how many operations were refused."""
    for op in ops:
        k = op[0]
        try:
            if k == "phys":
                p = dict(op[1])
                n = 1 if obj.zernpol is not None else len(obj.polynomials)
                if (n == 1) == isinstance(p["a"], list) and not (n == 1 and len(p["a"]) == 1) and n != (len(p["a"]) if isinstance(p["a"], list) else 1):
                    p["a"] = 0.1 if n == 1 else [0.05 + 0.01*i for i in range(n)]
                K.set_phys(obj, dict(p, a=form(p["a"], op[2])))
            elif k == "badphys":
                K.set_phys(obj, op[1])
            elif k in ("calc", "badcalc"):
                obj.set_calculation_props(*op[1])
            elif k == "kernel":
                if obj.kernel_size <= 5 and obj.n_int_r_points <= 40 and (obj.zernpol is not None or obj.coefficients is not None):
                    obj.calculate_psf_kernel(suppress_warnings=True, normalized=op[1], accelerated=False)
            elif k == "rand":
                obj.kernel = np.random.default_rng(op[1]).random((op[2], op[2]))**3
                obj.kernel_size = op[2]
            elif k == "crop":
                obj.crop_kernel(op[1])
            elif k == "size":
                obj.kernel_size = op[1]
            elif k == "read":
                o = S.make(z, op[1], op[2])
                b, name = w.ref_save(o)
                if name is not None:
                    obj.read_json(os.path.join(w.root, "ref", name))
            elif k == "badread":
                p = os.path.join(w.root, "other", "bad.json")
                with open(p, "w") as f:
                    f.write('{"NA": 0.5, "PSF Kernel": [[1.0')
                obj.read_json(p)
        except ValueError:
            pass                                   # refused (also JSONDecodeError)


def run(case, res):
    z = env.load(cpu=4, numba="absent")
    w = S.World(case, res, "c06")
    try:
        with env.quiet() as q:
            _run(case, res, w, z, q)
    finally:
        w.close()


def _run(case, res, w, z, q):
    writer = K.make_obj(z, case["pols"], {"list": list, "tuple": tuple}.get(case["seq"]))
    apply(w, z, writer, case["ops"])
    was_set = True
    arg, real_dir = w.folder(case["folder"])
    ref, name = w.ref_save(writer)
    target = os.path.join(real_dir, name) if name else None
    if target and case["pre"] != "none":
        os.makedirs(real_dir, exist_ok=True)
        with open(target, "wb") as f:
            f.write(b"[1, 2" * 30 if case["pre"] == "garbage" else json.dumps(dict(json.loads(ref), NA=0.01, Comment="x" * 500)).encode())
    sim = fssim.FsSim(w.ch, res, w.root, case["faults"], 2, case["short"], w.pkg_saved)
    out = {}

    def save():
        n0 = len(q.list)
        try:
            writer.save_json(abs_path=arg, overwrite=case["overwrite"])
            out["ok"] = [str(x.message) for x in q.list[n0:]]
        except (Exception, KeyboardInterrupt) as e:
            e.__traceback__ = None
            out["e"] = e
        if case["crash"]:
            res.count("fault:crash-after-save")
            sim.crash(sim.current.pid)
            raise SimCrash()
    sim.add("S0", save, 2001, 7000)
    why = sim.run()
    sim.finish()
    res.choices = w.ch.record
    res.steps = sim.ops_total
    if sim.tasks[0].error is not None:
        raise sim.tasks[0].error
    if sim.outside:
        raise Violation("outside-write", str(sim.outside[:3]))
    if "e" in out:
        if not sim.fault_hits and ref is not None:
            raise Violation("unexpected-error", f"save without any fault: {type(out['e']).__name__}: {out['e']}")
        return
    if target and case["pre"] != "none" and not case["overwrite"]:
        res.count("refused")                       # an existing file without permission: C07
        return
    want = S.content(writer)
    path = writer.json_file_path
    if case["folder"] == "default" and not os.path.realpath(path).startswith(w.root):
        read_path = path
    else:
        read_path = path
    reader = K.make_obj(z, case["rpols"])
    apply(w, z, reader, case["reader_ops"])
    if case.get("coarse"):                         # a clock or a file system that doesn't tell savings apart
        same_time(w, read_path)
    if case["via_attr"]:
        reader.json_file_path = read_path
        _, e = w.calm(lambda: reader.read_json())
    else:
        _, e = w.calm(lambda: reader.read_json(env.Path(read_path) if case["as_path"] else read_path))
    if e is not None:
        raise Violation("cannot-read", f"reading of the saved file: {type(e).__name__}: {e}")
    got = S.content(reader)
    if not S.same_content(got, want):
        raise Violation("not-restored", f"restored differs: {S.explain(want, got)}")
    res.nontrivial = True
    res.count("restored")
    if case["crash"]:
        res.count("restored-after-crash")
    # an equivalent file
    b1, n1 = w.ref_save(writer)
    b2, n2 = w.ref_save(reader)
    if b1 is None or b2 is None or json.loads(b1) != json.loads(b2) or n1 != n2:
        raise Violation("not-equivalent-file", f"the reader saves another file: {n1} / {n2}: {S.brief(b1)} / {S.brief(b2)}")
    if case.get("again"):
        saved_again(case, res, w, z, writer, reader, arg, read_path)
    # the same future
    nx = case["next"]
    if nx == "phys":
        for o in (writer, reader):
            apply(w, z, o, [["phys", case["next_phys"], "plain"]])
    elif nx == "calc":
        for o in (writer, reader):
            apply(w, z, o, [["calc", [3, 22, 39]]])
    if K.diff(K.public(writer), K.public(reader)):
        raise Violation("different-future", f"after the same {nx} call: {K.diff(K.public(writer), K.public(reader))}")
    if reader.kernel_size <= 5 and reader.n_int_r_points <= 40:
        k1 = writer.calculate_psf_kernel(suppress_warnings=True, accelerated=False)
        k2 = reader.calculate_psf_kernel(suppress_warnings=False, accelerated=False)
        if not env.arr_close(k1, k2):
            raise Violation("different-kernel", f"writer and reader compute different kernels ({np.shape(k1)}, {np.shape(k2)})")
        res.count("kernels-compared")
    res.note("content", sorted((k, str(v)) for k, v in want[0].items()))


def same_time(w, path):
    os.utime(str(path).replace(*w.pkg_saved), ns=(10**18, 10**18))


def saved_again(case, res, w, z, writer, reader, arg, path):
    """The same file saved and read once more, with another content; afterwards both objects hold it."""
    by = {"writer": writer, "reader": reader}[case["again_by"]]
    other = reader if by is writer else writer
    how = case["again"]
    if how == "kernel":
        by.kernel = np.random.default_rng(case["seed"] + 1).random(np.shape(by.kernel))
    elif how == "phys":                            # the name depends only on polynomials and amplitudes
        a = by.expansion_coeff if by.zernpol is not None else list(by.coefficients)
        by.set_physical_props(by.NA, by.wavelength*0.97, a, by.pixel_size*0.9)
    elif how == "calc":
        by.set_calculation_props(5, 23, 41)
    _, e = w.calm(lambda: by.save_json(abs_path=arg, overwrite=True))
    if e is not None:
        raise Violation("unexpected-error", f"second save: {type(e).__name__}: {e}")
    if case["folder"] == "missing":                # another folder may be meant the second time
        path = by.json_file_path
    elif os.path.realpath(str(by.json_file_path)) != os.path.realpath(str(path)):
        raise Violation("not-equivalent-file", f"the second save went to {by.json_file_path} instead of {path}")
    if case["coarse"]:
        same_time(w, path)
    want = S.content(by)
    readers = [other]
    if case["again_in"] == "new":
        readers.insert(0, K.make_obj(z, case["rpols"]))
    elif case["again_in"] == "writer":
        readers.insert(0, by)
    for r in readers:
        _, e = w.calm(lambda: r.read_json(path))
        if e is not None:
            raise Violation("cannot-read", f"reading of the file saved again: {type(e).__name__}: {e}")
        if not S.same_content(S.content(r), want):
            raise Violation("not-restored", f"after another save to the same file: {S.explain(want, S.content(r))}")
    res.count("restored-again")

"""C09: the computed kernel depends only on the settings in force."""
import os

import numpy as np

from .. import env, fssim, procsim
from ..core import Violation
from ..thrsim import instrument, interrupted
from . import _psf as K
from . import _save as S

ID = "C09"
LEVEL = "exploration"
RULE = "run counts as non-trivial when at least one kernel was compared after a fault, rejection, interrupt or mutation; distinct = distinct event-sequence hash"
QUICK_RUNS, THOROUGH_RUNS = 1600, 40000


def setup():
    for c in (4, 8):
        instrument(env.load(cpu=c, numba="absent"), env.is_subject)


BADPHYS = ["NA", "wl", "px", "pxbig", "count", "count2", "str", "none", "nan-str", "NAhigh", "missing"]
BADCALC = ["ks", "r", "phi", "none", "str"]


def gen_ops(rng, pols):
    """pols: list of polynomial lists, one per object."""
    ops = []
    n_obj = len(pols)
    for _ in range(rng.randrange(3, 12)):
        i = rng.randrange(n_obj)
        k = rng.choice(["phys", "phys", "phys", "calc", "calc", "badphys", "badphys", "badcalc", "kernel", "kernel", "crop", "size", "save", "read", "badread", "int",
                        "int", "mutret", "mutin", "pol", "clock", "par", "strict", "convolve", "other", "near", "near", "near", "rephys", "rephys"])
        n = len(pols[i])
        if k == "phys":
            ops.append(["phys", i, K.gen_phys(rng, n), rng.choice(["plain", "list", "array", "array"]), rng.random() < 0.5])
        elif k == "calc":
            ops.append(["calc", i, K.gen_calc(rng)])
        elif k == "badphys":
            ops.append(["badphys", i, K.gen_phys(rng, n), rng.choice(BADPHYS)])
        elif k == "badcalc":
            ops.append(["badcalc", i, K.gen_calc(rng), rng.choice(BADCALC)])
        elif k in ("kernel", "strict"):
            ops.append([k, i, rng.random() < 0.6, rng.random() < 0.2, rng.random() < 0.6])
        elif k == "crop":
            ops.append(["crop", i, rng.choice([0.01, 0.05, 0.2, 0.45, 0.7])])
        elif k == "size":
            ops.append(["size", i, rng.choice([3, 4, 5])])
        elif k == "save":
            ops.append(["save", i, S.gen_fault(rng, "S0", ("errno", "int")) if rng.random() < 0.4 else None])
        elif k == "read":
            j = rng.randrange(n_obj)
            ops.append(["read", i, j, S.gen_fault(rng, "S0", ("errno", "int")) if rng.random() < 0.3 else None])
        elif k == "int":
            what = rng.choice(["kernel", "kernel", "kernel", "phys", "calc", "crop", "convolve", "save"])
            ops.append(["int", i, what, rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"]),
                        K.gen_phys(rng, n) if what == "phys" else K.gen_calc(rng) if what == "calc" else None])
        elif k == "clock":
            ops.append(["clock", rng.choice(["frozen", "fast", "jumps", "backwards", "allback", "slow", "calm"])])
        elif k == "near":
            ops.append(["near", i, rng.choice(["NA", "NA", "NA", "wl", "px", "a", "pol", "scale", "same", "seq"]), rng.choice([0.3, 0.9, 1.0, 1.01, 1.3, 2.0, 5.0]), rng.random() < 0.5, rng.random() < 0.5])
        elif k == "rephys":
            ops.append(["rephys", i, rng.choice(["NA", "wl", "wl", "px", "a", "order", "none"]), rng.choice([0.7, 0.9, 0.999, 1.001, 1.1, 1.4]),
                        [rng.choice([3, 3, 5]), 20, 36] if rng.random() < 0.7 else None])
        elif k == "other":
            p = K.gen_pols(rng)
            ops.append(["other", p, K.gen_phys(rng, len(p)), rng.random() < 0.5])
        else:
            ops.append([k, i])
    return ops


def gen(rng, idx):
    n = rng.choice([1, 1, 2, 2, 3])
    pols = [K.gen_pols(rng, 0.35) for _ in range(n)]
    if n > 1 and rng.random() < 0.5:
        pols[1] = list(pols[0])
    return {"pols": pols, "share": rng.random() < 0.5, "seqs": [rng.choice(["list", "tuple", "single"]) for _ in pols],
            "start": [[K.gen_phys(rng, len(p)), K.gen_calc(rng, (3, 3, 5))] for p in pols],
            "ops": gen_ops(rng, pols), "faults": []}


def directed():
    ph = {"NA": 0.1, "wl": 0.5, "px": 1.0, "a": 0.1}
    for bad in BADPHYS:
        for pols in ([[4]], [[1, 4]], [[0]]):
            a = 0.1 if len(pols[0]) == 1 else [0.1, 0.05]
            yield {"pols": pols, "share": False, "seqs": ["list"], "start": [[dict(ph, a=a), [3, 20, 36]]], "faults": [], "seed": 1,
                   "ops": [["badphys", 0, {"NA": 0.2, "wl": 0.7, "px": 0.5, "a": a if len(pols[0]) == 1 else [0.2, 0.2]}, bad], ["kernel", 0, True, False, False]]}


def bad_phys_call(obj, p, how, n):
    a = p["a"]
    kw = dict(NA=p["NA"], wavelength=p["wl"], expansion_coeff=a, pixel_physical_size=p["px"])
    if how == "NA":
        kw["NA"] = -0.1
    elif how == "NAhigh":
        kw["NA"] = 2.5
    elif how == "wl":
        kw["wavelength"] = -0.5
    elif how == "px":
        kw["pixel_physical_size"] = 0.0
    elif how == "pxbig":
        kw["pixel_physical_size"] = 1e3
    elif how == "count":
        kw["expansion_coeff"] = [0.1]*(n + 1 if n > 1 else 2)
    elif how == "count2":
        kw["expansion_coeff"] = [] if n == 1 else 0.1
    elif how == "str":
        kw["expansion_coeff"] = "abc" if n == 1 else ["a"]*n
    elif how == "none":
        kw["pixel_physical_size"] = None
    elif how == "nan-str":
        kw["wavelength"] = "0.5"
    elif how == "missing":
        kw.pop("pixel_physical_size")
    obj.set_physical_props(**kw)


def bad_calc_call(obj, c, how):
    c = list(c)
    if how == "ks":
        c[0] = 2
    elif how == "r":
        c[1] = 10
    elif how == "phi":
        c[2] = 10
    elif how == "none":
        c[2] = None
    else:
        c[1] = "20"
    obj.set_calculation_props(*c)


def cheap(obj):
    return (obj.kernel_size <= 5 or (obj.kernel_size <= 7 and obj.n_int_r_points <= 31)) and (obj.n_int_r_points <= 60)


def resolve(z2, obj, old, new, what, strict_old=False):
    """Which settings are in force after a call that did not return normally."""
    z2.reset()
    p = K.public(obj)
    if not K.diff(p, old.settings(z2)):
        return old
    if new is not None and not K.diff(p, new.settings(z2)):
        return new
    raise Violation("mixed-settings", f"after {what}: {K.diff(old.settings(z2), p)}")


def run(case, res):
    z2 = env.load(cpu=8, numba="absent")
    z = env.load(cpu=4, numba="absent")
    w = S.World(case, res, "c09")
    try:
        with env.quiet(), procsim.use_clock(procsim.SimClock("calm", w.ch)):
            _run(case, res, w, z, z2)
    finally:
        w.close()
        z2.reset()


def _run(case, res, w, z, z2):
    import warnings
    exp = K.Expect()
    shared = {}

    def pol(i):
        if not case["share"]:
            return z.ZernPol(osa=i)
        return shared.setdefault(i, z.ZernPol(osa=i))
    objs, states, inputs, saved = [], [], [], {}
    for i, p in enumerate(case["pols"]):
        lst = [pol(x) for x in p]
        if case["seqs"][i] == "single" and len(lst) == 1:
            o = z.ZernPSF(lst[0])
        else:
            seq = tuple(lst) if case["seqs"][i] == "tuple" else lst
            o = z.ZernPSF(seq)
            if isinstance(seq, list):                      # the caller's list lives on
                seq.reverse(); seq.append(z.ZernPol(osa=9))
        st = K.State(p)
        K.set_phys(o, case["start"][i][0]); st.set("phys", case["start"][i][0])
        o.set_calculation_props(*case["start"][i][1]); st.set("calc", case["start"][i][1])
        objs.append(o); states.append(st); inputs.append([])
    disturbed = False
    nears = []

    def kernel(i, norm, verbose, sup, where, strict=False):
        o = objs[i]
        if not cheap(o):
            return
        if strict:
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                with np.errstate(over="raise", invalid="raise"):
                    try:
                        k = o.calculate_psf_kernel(suppress_warnings=True, normalized=norm, verbose_info=verbose, accelerated=False)
                    except (Warning, FloatingPointError):
                        res.count("strict-refusals")
                        return
        else:
            k = o.calculate_psf_kernel(suppress_warnings=sup, normalized=norm, verbose_info=verbose, accelerated=False)
        exp.kernel(states[i], k, norm, False, where)
        if not env.arr_eq(k, o.kernel):
            raise Violation("stored-kernel-differs", "the stored kernel is not the returned one")
        return k

    def fs_call(fn, fault):
        sim = fssim.FsSim(w.ch, res, w.root, [fault] if fault else [], 2, 0, w.pkg_saved)
        out = {}

        def body():
            try:
                fn(); out["r"] = "ok"
            except (Exception, KeyboardInterrupt) as e:
                e.__traceback__ = None
                out["r"] = e
        sim.add("S0", body, 2001, 7000)
        sim.run(); sim.finish()
        if sim.tasks[0].error:
            raise sim.tasks[0].error
        return out["r"], sim.fault_hits
    for n_op, op in enumerate(case["ops"]):
        k = op[0]
        i = op[1] if k not in ("clock", "other") else 0
        o, st = objs[i], states[i]
        n = len(st.pols)
        res.note("op", k, i)
        if k == "phys":
            p = dict(op[2])
            if (n > 1) != isinstance(p["a"], list) or (n > 1 and len(p["a"]) != n):       # a read replaced the polynomials
                p["a"] = 0.07 if n == 1 else [0.05 + 0.01*x for x in range(n)]
            a = list(p["a"]) if isinstance(p["a"], list) else p["a"]
            if op[3] == "array":
                a = np.array(a if isinstance(a, list) else [a])
            elif op[3] == "list":
                a = list(a) if isinstance(a, list) else [a]
            o.set_physical_props(p["NA"], p["wl"], a, p["px"])
            st.set("phys", p)
            if op[4] and isinstance(a, (list, np.ndarray)):
                a[:] = [9.0]*len(a); disturbed = True
            else:
                inputs[i].append(a)
        elif k == "rephys":
            # the settings in force once more, except for one argument
            p = next((dict(c[1]) for c in st.calls if c[0] == "phys"), None)
            if p is None:
                continue
            f = op[3]
            p["a"] = [float(v) for v in np.ravel(p["a"])]
            if op[2] == "NA":
                p["NA"] *= min(f, 1.0)
            elif op[2] == "wl":
                p["wl"] *= f
            elif op[2] == "px":
                p["px"] *= min(f, 1.0)
            elif op[2] == "a":
                p["a"] = p["a"][:-1] + [p["a"][-1]*f]
            elif op[2] == "order":
                p["a"] = p["a"][::-1]
            if n == 1:
                p["a"] = p["a"][0]
            calc = op[4] or next((c[1] for c in st.calls if c[0] == "calc"), None)
            try:
                K.set_phys(o, p)
            except ValueError:
                res.count("near-refused")
                continue
            st.set("phys", p)
            if calc is not None:
                o.set_calculation_props(*calc); st.set("calc", calc)
            res.count("settings-repeated")
            disturbed = True
        elif k == "mutin":
            for a in inputs[i]:
                if isinstance(a, (list, np.ndarray)):
                    a[:] = [7.0]*len(a); disturbed = True
        elif k == "calc":
            o.set_calculation_props(*op[2]); st.set("calc", op[2])
        elif k in ("badphys", "badcalc"):
            disturbed = True
            try:
                bad_phys_call(o, op[2], op[3], n) if k == "badphys" else bad_calc_call(o, op[2], op[3])
            except (ValueError, TypeError) as e:
                z2.reset()
                d = K.diff(st.settings(z2), K.public(o))
                if d:
                    raise Violation("trace-of-rejected-call", f"{k} {op[3]} ({type(e).__name__}) changed {d}")
                res.count("rejected-calls")
            else:
                if k == "badphys" and op[3] == "count" and n == 1:
                    pass
                raise Violation("accepted-invalid", f"{k} {op[3]} was accepted")
        elif k in ("kernel", "strict"):
            kernel(i, op[2], op[3], op[4], f"operation {n_op}", k == "strict")
        elif k == "par":
            if cheap(o):
                r = o.get_kernel_parallel(True)
                exp.kernel(st, r, True, False, f"operation {n_op} (parallel without workers)")
        elif k == "mutret":
            r = kernel(i, True, False, True, f"operation {n_op}")
            if r is not None and r.flags.writeable:
                r[...] = 2.0; disturbed = True
        elif k == "crop":
            try:
                o.crop_kernel(op[2])
            except ValueError:
                res.count("rejected-calls")
            if o.kernel_size != st.settings(z2)["kernel_size"]:
                st.set("size", o.kernel_size)
        elif k == "size":
            o.kernel_size = op[2]; st.set("size", op[2])
        elif k == "convolve":
            img = np.arange(60, dtype=float).reshape(6, 10)
            o.convolute_img(img)
        elif k == "save":
            disturbed |= op[2] is not None
            r, hits = fs_call(lambda: o.save_json(abs_path=w.dir, overwrite=True), op[2])
            if r == "ok":
                saved[i] = (o.json_file_path, st.copy())
            elif not hits:
                raise Violation("unexpected-error", f"save: {type(r).__name__}: {r}")
        elif k == "read":
            if op[2] not in saved:
                continue
            path, st2 = saved[op[2]]
            if any(p == path and i2 != op[2] for i2, (p, _) in saved.items()):
                continue                                     # another object of the same name wrote there
            disturbed |= op[3] is not None
            r, hits = fs_call(lambda: o.read_json(path), op[3])
            if r == "ok":
                if not hits:
                    states[i] = st2.copy()
                else:
                    states[i] = resolve(z2, o, st, st2, "a disturbed read")
            elif hits:
                states[i] = resolve(z2, o, st, st2 if isinstance(r, (KeyboardInterrupt, MemoryError)) else None, "a failed read")
            else:
                raise Violation("unexpected-error", f"read: {type(r).__name__}: {r}")
        elif k == "badread":
            disturbed = True
            p = os.path.join(w.root, "other", "bad.json")
            with open(p, "w") as f:
                f.write('{"NA": 0.5, "Wavelength": 0.9, "PSF Kernel": [[1.0]], "Kernel Size": 9}')
            o.read_json(p)
            with open(p, "w") as f:
                f.write('{"NA": 0.5, "Wavelength": 0.9, "PSF Ker')
            try:
                o.read_json(p)
            except ValueError:
                pass
        elif k == "int":
            what = op[2]
            if what == "kernel" and not cheap(o):
                continue
            if what == "save":
                fn = lambda x: (lambda: x.save_json(abs_path=os.path.join(w.root, "other"), overwrite=True))
            else:
                arg = op[4]
                if what == "phys" and ((n > 1) != isinstance(arg["a"], list) or (n > 1 and len(arg["a"]) != n)):
                    arg = dict(arg, a=0.07 if n == 1 else [0.05 + 0.01*x for x in range(n)])
                fn = {"kernel": lambda x: (lambda: x.calculate_psf_kernel(suppress_warnings=True, accelerated=False)),
                      "phys": lambda x: (lambda: K.set_phys(x, arg)), "calc": lambda x: (lambda: x.set_calculation_props(*arg)),
                      "crop": lambda x: (lambda: x.crop_kernel(0.3)), "convolve": lambda x: (lambda: x.convolute_img(np.eye(7)))}[what]
            small = what == "kernel" and o.kernel_size > 1
            z2.reset()
            twin = st.fresh(z2)
            if what == "kernel":
                keep = o.kernel_size
                o.kernel_size = twin.kernel_size = 1          # a single point of the kernel: the same code, fewer instructions
            if what in ("crop", "convolve", "save"):
                twin.kernel = np.array(o.kernel)
            old_kernel = np.array(o.kernel)
            fired, out, where = interrupted(w.ch, fn(twin), fn(o), op[3])
            res.note("int", what, where, fired, out[0])
            if fired:
                res.count(f"fault:{op[3]}-in-{what}")
                disturbed = True
            if what == "kernel":
                o.kernel_size = keep
            new = st.copy()
            if what == "phys":
                new.set("phys", arg)
            elif what == "calc":
                new.set("calc", arg)
            elif what == "crop":
                new.set("size", o.kernel_size)
            else:
                new = None
            if out[0] == "ok":
                if what in ("phys", "calc"):
                    states[i] = new
                elif what == "crop" and o.kernel_size != st.settings(z2)["kernel_size"]:
                    states[i] = new
            elif not fired and not (what == "crop" and isinstance(out[1], ValueError)):
                raise Violation("unexpected-error", f"{what}: {type(out[1]).__name__}: {out[1]}")
            else:
                states[i] = resolve(z2, o, st, new, f"{op[3]} in {what} at {where}")
        elif k == "pol":
            for p in (o.polynomials or [o.zernpol]):
                p.polynomial_value(0.3, 0.1); p.radial(np.linspace(0, 1, 5)); p.radial_dr(0.7)
        elif k == "clock":
            procsim.CLOCK.profile = op[1]
            res.count(f"fault:clock-{op[1]}")
        elif k == "near":
            # an object that differs from an earlier one in a single argument gets what it would get on its own
            st3 = K.State(st.pols)
            p = next((dict(c[1]) for c in st.calls if c[0] == "phys"), None)
            if p is None:
                continue
            p["a"] = list(p["a"]) if isinstance(p["a"], list) else p["a"]
            f = op[3]
            if op[2] == "NA":
                p["NA"] = min(1.4, p["NA"]*f)
            elif op[2] == "wl":
                p["wl"] *= max(f, 0.5)
            elif op[2] == "px":
                p["px"] *= min(f, 1.0)
            elif op[2] == "a":
                p["a"] = [v*f for v in p["a"]] if n > 1 else -float(np.ravel(p["a"])[0])*f
            elif op[2] == "pol":
                st3.pols = [{5: 3, 3: 5, 7: 8, 8: 7, 4: 12, 12: 4, 0: 4, 9: 6, 6: 9, 1: 2, 2: 1}.get(x, x) for x in st3.pols]
                if len(set(st3.pols)) < len(st3.pols):
                    st3.pols = list(reversed(st.pols))
            elif op[2] == "scale":                                  # another wavelength with the same size in pixels
                p["wl"] *= min(f, 1.5); p["px"] *= min(f, 1.5)
            elif op[2] == "seq":
                st3.pols = list(reversed(st.pols))
            x = K.make_obj(z, st3.pols)
            try:
                K.set_phys(x, p)
            except ValueError:
                res.count("near-refused")
                continue
            st3.set("phys", p)
            nears.append((st3.copy(), K.public(x), f"operation {n_op} {op}"))
            if op[4]:
                c = [3, 20, 36] if op[5] else [3, 25, 40]
                x.set_calculation_props(*c); st3.set("calc", c)
                exp.kernel(st3, x.calculate_psf_kernel(suppress_warnings=True, accelerated=False), True, False, f"operation {n_op} {op}")
        elif k == "other":
            x = K.make_obj(z, op[1])
            K.set_phys(x, op[2])
            x.set_calculation_props(3, 20, 36)
            if op[3]:
                x.calculate_psf_kernel(suppress_warnings=True, accelerated=False)
    for i, o in enumerate(objs):
        kernel(i, True, False, True, "final kernel")
        z2.reset()
        d = K.diff(states[i].settings(z2), K.public(o))
        if d:
            raise Violation("settings-differ", f"settings in force of object {i} differ from those last accepted: {d}")
    for st3, d3, where in nears:
        z2.reset()
        d = K.diff(st3.settings(z2), d3)
        if d:
            raise Violation("settings-differ", f"{where}: settings differ from those of the same object alone: {d}")
        res.count("near-objects-compared")
    res.nontrivial = disturbed and bool(exp.items)
    res.choices = w.ch.record
    exp.check(z2, res)
    for it in exp.items:
        res.note("kernel", np.round(it[1], 9).tolist())

"""C10: an interrupted computation leaves the previous kernel or the complete new one."""
import os
import warnings

import numpy as np

from .. import env, fssim, procsim
from ..core import Violation
from ..thrsim import EVAL, Counting, Inject, StackRoom, instrument, interrupted, loc
from . import _pool as P
from . import _psf as K
from . import _save as S

ID = "C10"
LEVEL = "exploration"
RULE = "run counts as non-trivial when at least one operation was stopped by an injected fault; distinct = distinct event-sequence hash"
QUICK_RUNS, THOROUGH_RUNS = 2000, 60000
KINDS = ["KeyboardInterrupt", "KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "MemoryError", "stack", "numeric", "warning"]


def setup():
    for c in (4, 8):
        instrument(env.load(cpu=c, numba="absent"), env.is_subject)


def gen(rng, idx):
    pols = K.gen_pols(rng, 0.3)
    case = {"pols": pols, "phys": K.gen_phys(rng, len(pols)), "calc": K.gen_calc(rng, (3,)), "faults": []}
    if rng.random() < 0.22:
        case["mode"] = "par"
        case["pols"] = pols = K.gen_pols(rng, 0.15)
        case["phys"] = K.gen_phys(rng, len(pols))
        case["timing"] = P.gen_timing(rng)
        case["faults"] = P.gen_stalls(rng, 2)
        ops = [["init"]] if rng.random() < 0.9 else []
        for _ in range(rng.randrange(2, 5)):
            ops.append(rng.choice([["par", rng.random() < 0.6], ["par", rng.random() < 0.6], ["parint", rng.random() < 0.6, rng.choice(KINDS[:5])],
                                   ["ser", rng.random() < 0.6], ["calc", K.gen_calc(rng, (3,))], ["deinit"], ["init"]]))
        ops += [["par", True], ["parint", True, "KeyboardInterrupt"], ["par", False]]
        case["ops"] = ops
        m = rng.choice(["int", "int", "memory", "kill", "none"])
        if m == "kill":
            case["faults"].append({"kind": "kill_self", "task": f"W{rng.randrange(5)}", "where": rng.choice(["before", "after"]), "op": rng.randrange(0, 400)})
        elif m != "none":
            case["faults"].append({"kind": "interrupt" if m == "int" else "memory", "task": "P", "where": rng.choice(["before", "after"]),
                                   "op": rng.randrange(0, 2500)})
        return case
    case["mode"] = "ser"
    ops = []
    for _ in range(rng.randrange(1, 5)):
        k = rng.choice(["kernel", "kernel", "kernel", "crop", "convolve", "save", "change", "calm", "show"])
        if k == "kernel":
            ops.append(["kernel", rng.choice(KINDS), rng.choice([1, 1, 1, 3]), rng.random() < 0.6, rng.random() < 0.2, rng.random() < 0.6])
        elif k == "crop":
            ops.append(["crop", rng.choice(KINDS[:6]), rng.choice([0.01, 0.1, 0.3, 0.45]), rng.choice([5, 7, 9]), rng.randrange(1, 4)])
        elif k == "convolve":
            ops.append(["convolve", rng.choice(KINDS[:6]), rng.choice(["uint8", "uint16", "float64", "float32", "int32"]), rng.random() < 0.5])
        elif k == "save":
            ops.append(["save", rng.choice(KINDS[:6])])
        elif k == "show":
            ops.append(["show", rng.choice(KINDS[:6])])
        elif k == "change":
            p = K.gen_phys(rng, len(pols))
            ops.append(["change", p] if rng.random() < 0.6 else ["change", None, K.gen_calc(rng, (3,))])
        else:
            ops.append(["calm", rng.random() < 0.5])
    case["ops"] = ops
    return case


def directed():
    base = {"mode": "ser", "phys": {"NA": 0.1, "wl": 0.5, "px": 1.0, "a": 0.1}, "calc": [3, 20, 36], "faults": [], "seed": 11}
    for pols, a in (([4], 0.1), ([0], 0.1), ([1, 4], [0.1, 0.05]), ([2], 0.1), ([12], 0.1)):
        for kind in sorted(set(KINDS)):
            for norm in (True, False):
                yield dict(base, pols=pols, phys=dict(base["phys"], a=a), ops=[["calm", True], ["kernel", kind, 1, norm, False, True], ["kernel", kind, 1, norm, True, False]])
    for kind in ("KeyboardInterrupt", "MemoryError"):
        yield dict(base, pols=[4], ops=[["crop", kind, 0.3, 7, 2]])
        for t in ("uint8", "float32"):
            yield dict(base, pols=[4], ops=[["calm", True], ["convolve", kind, t, True]])


def disturbed_call(ch, res, kind, dry, op, where_out):
    """(was anything injected, outcome)"""
    if kind in ("KeyboardInterrupt", "MemoryError"):
        fired, out, where = interrupted(ch, dry, op, kind)
        where_out.append(where)
        return fired, out
    room = 3 + ch.pick(14)
    level = ch.pick(3)

    def guarded():
        try:
            if kind == "stack":
                with StackRoom(room):
                    return ("ok", op())
            if kind == "numeric":
                with np.errstate(**[dict(all="raise"), dict(under="raise"), dict(invalid="raise", over="raise")][level]):
                    return ("ok", op())
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                return ("ok", op())
        except (Exception, KeyboardInterrupt) as e:
            e.__traceback__ = None
            return ("raised", e)
    out = guarded()
    where_out.append(kind + (str(room) if kind == "stack" else ""))
    fired = out[0] == "raised" and isinstance(out[1], (RecursionError, FloatingPointError, Warning))
    return fired, out


class Watch:
    """Arrays handed out, the stored kernel and the settings of one object."""

    def __init__(self, obj, state, res):
        self.obj, self.state, self.res = obj, state, res
        self.given = []                 # arrays handed out and their content then
        self.pending = []               # (state, previous kernel, kernel now, norm, where)

    def give(self, arr, where):
        if not any(a is arr for a, _, _ in self.given):
            self.given.append((arr, np.array(arr), where))
            del self.given[:-6]

    def arrays(self, where):
        for a, c, w in self.given:
            if not env.arr_eq(a, c):
                raise Violation("returned-array-altered", f"the array returned by {w} was altered by {where}")

    def before(self):
        self.prev = np.array(self.obj.kernel)
        self.prev_settings = K.public(self.obj)

    def after(self, where, norms=None, same_settings=True):
        self.arrays(where)
        now = np.array(self.obj.kernel)
        if same_settings:
            d = K.diff(self.prev_settings, K.public(self.obj))
            if d:
                raise Violation("settings-changed", f"{where}: {d}")
        if not env.arr_eq(now, self.prev):
            if norms is None:
                raise Violation("kernel-changed", f"{where}: the stored kernel changed (shape {self.prev.shape} -> {now.shape})")
            self.pending.append((self.state.copy(), now, norms, where))

    def check(self, z, exp):
        z.reset()
        for st, now, norm, where in self.pending:
            ref = K.reference(z, st, norm, False)
            if now.shape != ref.shape or not env.arr_close(now, ref):
                raise Violation("partial-kernel", f"{where}: the stored kernel is neither the previous one nor the complete new one")


def run(case, res):
    (run_par if case["mode"] == "par" else run_ser)(case, res)


def run_ser(case, res):
    z2 = env.load(cpu=8, numba="absent")
    z = env.load(cpu=4, numba="absent")
    w = S.World(case, res, "c10")
    import matplotlib.pyplot as plt
    try:
        with env.quiet(), procsim.use_clock(procsim.SimClock("calm", w.ch)):
            _run(case, res, w, z, z2)
    finally:
        plt.close("all")
        w.close()
        z2.reset()


def _run(case, res, w, z, z2):
    obj = K.make_obj(z, case["pols"])
    st = K.State(case["pols"])
    K.set_phys(obj, case["phys"]); st.set("phys", case["phys"])
    obj.set_calculation_props(*case["calc"]); st.set("calc", case["calc"])
    watch = Watch(obj, st, res)
    exp = K.Expect()
    hits = 0

    def twin():
        z2.reset()
        t = st.fresh(z2)
        return t
    for n_op, op in enumerate(case["ops"]):
        k = op[0]
        tag = []
        if k == "change":
            if op[1] is not None:
                K.set_phys(obj, op[1]); st.set("phys", op[1])
                obj.set_calculation_props(*case["calc"]); st.set("calc", case["calc"])
            else:
                obj.set_calculation_props(*op[2]); st.set("calc", op[2])
            continue
        if k == "calm":
            r = obj.calculate_psf_kernel(suppress_warnings=True, normalized=op[1], accelerated=False)
            exp.kernel(st, r, op[1], False, f"operation {n_op}")
            watch.give(r, f"operation {n_op}"); watch.arrays("a later computation")
            continue
        if k == "kernel":
            _, kind, size, norm, verbose, sup = op
            if obj.kernel_size != size:
                obj.kernel_size = size; st.set("size", size)
            call = lambda x: x.calculate_psf_kernel(suppress_warnings=sup, normalized=norm, verbose_info=verbose, accelerated=False)
            t = twin() if kind in ("KeyboardInterrupt", "MemoryError") else None
            watch.before()
            fired, out = disturbed_call(w.ch, res, kind, lambda: call(t), lambda: call(obj), tag)
            watch.after(f"{kind} at {tag[0]} in a computation", norm)
            if out[0] == "ok":
                exp.kernel(st, out[1], norm, False, f"operation {n_op} ({kind} survived at {tag[0]})")
                watch.give(out[1], f"operation {n_op}")
                if not env.arr_eq(out[1], obj.kernel):
                    raise Violation("stored-kernel-differs", f"{kind} at {tag[0]}: stored and returned kernels differ")
            elif not fired:
                raise Violation("unexpected-error", f"computation: {type(out[1]).__name__}: {out[1]}")
        elif k == "crop":
            _, kind, part, size, core = op
            rng = np.random.default_rng(size*10 + core)
            a = np.full((size, size), 1e-9)
            c = size//2
            lo, hi = max(0, c - core), min(size, c + core + 1)
            a[lo:hi, lo:hi] = 0.5 + 0.5*rng.random((hi - lo, hi - lo))
            obj.kernel = a; obj.kernel_size = size; st.set("size", size)
            watch.give(a, "the kernel stored before cropping")
            t = twin(); t.kernel = np.array(a)
            full = twin(); full.kernel = np.array(a); full.crop_kernel(part)
            watch.before()
            fired, out = disturbed_call(w.ch, res, kind, lambda: t.crop_kernel(part), lambda: obj.crop_kernel(part), tag)
            where = f"{kind} at {tag[0]} in cropping"
            watch.arrays(where)
            if not (env.arr_eq(obj.kernel, a) or env.arr_eq(obj.kernel, full.kernel)):
                raise Violation("partial-kernel", f"{where}: kernel of shape {np.shape(obj.kernel)}, was {a.shape}, complete {full.kernel.shape}")
            if obj.kernel_size not in (size, full.kernel_size):
                raise Violation("settings-changed", f"{where}: kernel size {obj.kernel_size}")
            if out[0] == "ok" and (not env.arr_eq(obj.kernel, full.kernel) or obj.kernel_size != full.kernel_size):
                raise Violation("partial-kernel", f"{where}: the call returned, but the kernel is not cropped")
            now = K.public(obj); now["kernel_size"] = watch.prev_settings["kernel_size"]
            d = K.diff(watch.prev_settings, now)
            if d:
                raise Violation("settings-changed", f"{where}: {d}")
            if out[0] == "raised" and not fired:
                raise Violation("unexpected-error", f"cropping: {type(out[1]).__name__}: {out[1]}")
            st.set("size", obj.kernel_size)
        elif k in ("convolve", "save", "show"):
            kind = op[1]
            t = twin(); t.kernel = np.array(obj.kernel)
            if k == "convolve":
                img = (np.arange(80).reshape(8, 10) % 23).astype(op[2]); img0 = img.copy()
                call = lambda x: x.convolute_img(img, op[3])
            elif k == "save":
                call = lambda x: x.save_json(abs_path=os.path.join(w.root, "other"), overwrite=True)
            else:
                call = lambda x: (x.plot_kernel("c10") if n_op % 2 else x.visualize_convolution(3.0, 200))
            watch.before()
            fired, out = disturbed_call(w.ch, res, kind, lambda: call(t), lambda: call(obj), tag)
            watch.after(f"{kind} at {tag[0]} in {k}")
            if k == "convolve" and not env.arr_eq(img, img0):
                raise Violation("returned-array-altered", "the image of the caller was altered")
            if out[0] == "raised" and not fired:
                raise Violation("unexpected-error", f"{k}: {type(out[1]).__name__}: {out[1]}")
            if k == "convolve" and out[0] == "ok":
                z2.reset()
                t = st.fresh(z2); t.kernel = np.array(obj.kernel)
                if not env.arr_eq(out[1], t.convolute_img(img0, op[3])):
                    raise Violation("wrong-convolution", f"operation {n_op} ({kind})")
                watch.give(out[1], f"convolution {n_op}")
        res.note(k, op[1], tag, fired, out[0], obj.kernel.shape)
        if fired:
            hits += 1
            res.count(f"fault:{op[1]}-in-{k}")
        res.count("operations-disturbed")
    # the object is as usable as ever
    if obj.kernel_size > 3:
        obj.kernel_size = 3; st.set("size", 3)
    r = obj.calculate_psf_kernel(suppress_warnings=True, normalized=True, accelerated=False)
    exp.kernel(st, r, True, False, "computation after everything")
    watch.arrays("the last computation")
    _, e = w.calm(lambda: obj.save_json(abs_path=os.path.join(w.root, "other"), overwrite=True))
    if e is not None:
        raise Violation("unexpected-error", f"saving after everything: {type(e).__name__}: {e}")
    res.nontrivial = hits > 0
    res.choices = w.ch.record
    watch.check(z2, exp)
    exp.check(z2, res)
    for it in exp.items:
        res.note("kernel", np.round(it[1], 9).tolist())


def run_par(case, res):
    z2 = env.load(cpu=4, numba="absent")
    z = env.load(cpu=8, numba="absent")
    sim = P.new_sim(case, res, max_time=600.0, max_steps=2_000_000)
    sim.busy_budget = 6_000_000
    exp = K.Expect()
    watch = []
    stage = ["start"]
    stops = [0]
    nfault = lambda: sum(v for k, v in sim.fired.items() if k != "stall") + stops[0]

    def program():
        obj = K.make_obj(z, case["pols"])
        st = K.State(case["pols"])
        K.set_phys(obj, case["phys"]); st.set("phys", case["phys"])
        obj.set_calculation_props(*case["calc"]); st.set("calc", case["calc"])
        wt = Watch(obj, st, res)
        watch.append(wt)
        counted = None
        hurt = False
        for n_op, op in enumerate(case["ops"]):
            stage[0] = str(op)
            before = nfault()
            out = None
            wt.before()
            change = None
            try:
                if op[0] == "init":
                    obj.initialize_parallel_workers()
                elif op[0] == "deinit":
                    obj.deinitialize_workers()
                    if nfault() == before:
                        hurt = False
                elif op[0] == "calc":
                    change = st.copy(); change.set("calc", op[1])
                    obj.set_calculation_props(*op[1])
                    st.set("calc", op[1])
                    wt.prev_settings = K.public(obj)
                elif op[0] == "ser":
                    out = obj.calculate_psf_kernel(suppress_warnings=True, normalized=op[1], accelerated=False)
                elif op[0] == "par" or counted is None:
                    with Counting(EVAL) as c:
                        out = obj.get_kernel_parallel(normalize_values=op[1])
                    counted = c
                else:
                    t = counted.pick(sim.ch)
                    mask = EVAL if op[2] == "KeyboardInterrupt" else EVAL | 2
                    inj = Inject(t, KeyboardInterrupt if op[2] == "KeyboardInterrupt" else MemoryError, mask)
                    stage[0] += " " + loc(*t[0])
                    try:
                        with inj:
                            out = obj.get_kernel_parallel(normalize_values=op[1])
                    finally:
                        if inj.fired:
                            stops[0] += 1
                            res.count(f"fault:{op[2]}-in-parallel")
            except (Exception, KeyboardInterrupt) as e:
                if isinstance(e, Violation):
                    raise
                if nfault() == before and (not hurt or op[0] in ("ser", "calc")):
                    raise Violation("unexpected-error", f"{op[0]}: {type(e).__name__}: {e}")
                hurt = True
                res.count("failed-calls")
                if op[0] == "calc":
                    return                       # C12 decides this
            else:
                if out is not None:
                    exp.kernel(st, out, op[1], False, f"operation {n_op} {op[0]}")
                    wt.give(out, f"operation {n_op}")
                    if not env.arr_eq(out, obj.kernel):
                        raise Violation("stored-kernel-differs", "the stored kernel is not the returned one")
            wt.after(f"{op[0]} ({stage[0]})", op[1] if op[0] in ("ser", "par", "parint") else None)
        stage[0] = "exit"
        for _ in range(4):
            try:
                obj.deinitialize_workers()
                break
            except (KeyboardInterrupt, MemoryError):
                pass
        wt.before()
        out = obj.calculate_psf_kernel(suppress_warnings=True, accelerated=False)
        exp.kernel(st, out, True, False, "computation after everything")
        wt.after("computation after everything", True)
    with env.quiet():
        why = sim.run(program)
    P.finish(sim, case, res)
    e = sim.main.error
    if isinstance(e, Violation):
        raise e
    if e is not None and not (nfault() and isinstance(e, (KeyboardInterrupt, MemoryError))):
        raise Violation("unexpected-error", f"{stage[0]}: {type(e).__name__}: {e}")
    if why != "main-done" and nfault() == 0:
        raise Violation("never-returns", f"stage {stage[0]}: " + P.stuck_report(sim))
    res.nontrivial = nfault() > 0
    for wt in watch:
        wt.check(z2, exp)
    exp.check(z2, res)
    for o in exp.items:
        res.note("kernel", o[0].key(), np.round(o[1], 9).tolist())

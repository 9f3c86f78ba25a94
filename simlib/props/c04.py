"""C04: the kernel computed on worker processes equals the serial one."""
import os
import shutil
import tempfile

import numpy as np

from .. import env
from ..core import Violation
from . import _pool as P
from . import _psf as K

ID = "C04"
LEVEL = "exploration"
RULE = "run counts as non-trivial when worker processes took part; distinct = distinct event-sequence hash"
QUICK_RUNS, THOROUGH_RUNS = 640, 12000
CPUS = [4, 8]
BOUND = 600.0


def setup():
    for c in CPUS:
        env.load(cpu=c, numba="absent")


def gen_history(rng, n_pols, allow_read):
    ops = [["phys", K.gen_phys(rng, n_pols)]] if n_pols > 1 or rng.random() < 0.95 else []
    ops.append(["calc", K.gen_calc(rng, (3,))])
    if rng.random() < 0.9:
        ops.append(["init"])
    kernels = 0
    for _ in range(rng.randrange(1, 6)):
        k = rng.choice(["par", "par", "phys", "phys", "calc", "calc", "badphys", "badcalc", "deinit", "init", "ser", "other", "read", "reread", "point", "point", "size"])
        if k in ("par", "ser"):
            ops.append([k, rng.random() < 0.5])
            kernels += 1
        elif k == "phys":
            ops.append(["phys", K.gen_phys(rng, n_pols)])
        elif k == "calc":
            ops.append(["calc", K.gen_calc(rng, (3,))])
        elif k == "badphys":
            p = K.gen_phys(rng, n_pols)
            key = rng.choice(["NA", "wl", "px", "px"])
            p[key] = 50.0 if key == "px" and rng.random() < 0.5 else -1.0
            ops.append(["badphys", p])
        elif k == "badcalc":
            ops.append(["badcalc", rng.choice([[2, 20, 36], [5, 10, 36], [5, 20, 10]])])
        elif k == "point":
            ops.append(["point", rng.randrange(-1, 2), rng.randrange(-1, 2)])
        elif k == "other":
            pols = K.gen_pols(rng, 0.0, airy=False)
            ops.append(["other", pols, rng.random() < 0.6, K.gen_phys(rng, len(pols))])
            if rng.random() < 0.3 and kernels < 2:
                ops.append(["opar", 0]); kernels += 1
            if rng.random() < 0.5:
                ops.insert(rng.randrange(len(ops), len(ops) + 1), ["odeinit", rng.randrange(2)])
        elif k == "read" and allow_read:
            pols = K.gen_pols(rng, 0.2)
            ops.append(["read", pols, K.gen_phys(rng, len(pols)), K.gen_calc(rng, (3,))])
            n_pols = len(pols)
        elif k == "reread":
            # a file with other polynomials and otherwise the settings already in force
            if allow_read and n_pols == 1:
                if rng.random() < 0.7:
                    ops.append(["point", 1, 0])
                ops += [["reread", rng.choice(K.SINGLES[:-3])], rng.choice([["point", 1, 0], ["point", rng.randrange(-1, 2), rng.randrange(-1, 2)], ["par", False]])]
        elif k == "size":
            ops.append(["size", rng.choice([2, 2, 1, 3, 4] if ops and ops[0][0] == "phys" else [3, 4])])
        else:
            ops.append([k])
        if kernels >= 2:
            break
    ops.append(["par", rng.random() < 0.5])
    if rng.random() < 0.3:
        ops.append(["point", rng.randrange(-1, 2), rng.randrange(-1, 2)])
    if rng.random() < 0.5:
        ops.append(["deinit"])
        if rng.random() < 0.3:
            ops.append(["point", rng.randrange(-1, 2), rng.randrange(-1, 2)])
        if rng.random() < 0.4:
            ops.append(["par", rng.random() < 0.5])
    return [o for o in ops if o != ["read"]]


def gen(rng, idx):
    pols = K.gen_pols(rng, multi=0.15)
    case = {"cpu": rng.choice(CPUS), "pols": pols, "ops": gen_history(rng, len(pols), True), "timing": P.gen_timing(rng),
            "faults": P.gen_stalls(rng), "seq": rng.random() < 0.2}
    mode = rng.choice(["none", "none", "none", "kill", "int", "int", "refuse", "memory"])
    if mode == "kill":
        case["faults"].append({"kind": "kill_self", "task": f"W{rng.randrange(5)}", "where": rng.choice(["before", "after"]), "op": rng.randrange(0, 400)})
    elif mode in ("int", "memory"):
        case["faults"].append({"kind": "interrupt" if mode == "int" else "memory", "task": "P", "where": rng.choice(["before", "after"]),
                               "op": rng.randrange(0, 2500)})
    elif mode == "refuse":
        case["faults"].append({"kind": "refuse-start", "n": rng.randrange(0, 6)})
    return case


def directed():
    phys = lambda wl, a=0.1: {"NA": 0.1, "wl": wl, "px": 0.2*wl/0.1, "a": a}
    base = {"cpu": 8, "timing": {"profile": "tight", "feeder": "tight", "start_delay": 0.0}, "faults": [], "seq": False, "seed": 5}
    c3 = ["calc", [3, 20, 36]]
    yield dict(base, pols=[4], ops=[["phys", phys(0.5)], c3, ["init"], ["par", False], ["phys", phys(0.75)], c3, ["par", False], ["deinit"], ["par", True]])
    o7 = ["other", [7], True, phys(0.6, 0.2)]
    for tail in ([["opar", 0], ["par", False], ["odeinit", 0], ["par", False]], [["odeinit", 0], ["par", False]], [["deinit"], ["opar", 0], ["par", True]]):
        yield dict(base, pols=[4], ops=[["phys", phys(0.5)], c3, ["init"], o7] + tail)
        yield dict(base, pols=[4], ops=[["phys", phys(0.5)], c3, o7, ["init"]] + tail)
    pt = [["point", 1, 0], ["point", 0, 0], ["point", -1, 1]]
    for pols, a in (([7], 0.1), ([3, 5], [0.1, 0.05])):
        yield dict(base, pols=pols, ops=[["phys", phys(0.5, a)], c3] + pt + [["init"]] + pt + [["par", False], ["deinit"]] + pt)
        yield dict(base, pols=pols, ops=[["phys", phys(0.5, a)], c3, ["init"], ["size", 2], ["par", False], ["size", 4], ["par", True]])
    yield dict(base, pols=[4], ops=[c3, ["init"], ["size", 1], ["par", True]])
    yield dict(base, pols=[7], ops=[["phys", phys(0.5)], c3] + pt + [["reread", [8]]] + pt + [["init"], ["par", False], ["reread", [5]], ["par", True]])
    yield dict(base, pols=[0], ops=[["phys", phys(0.5)], c3, ["init"], ["par", False], ["deinit"]])
    yield dict(base, pols=[3, 5], ops=[["phys", phys(0.5, [0.1, 0.05])], c3, ["init"], ["par", True], ["par", False]])
    yield dict(base, pols=[7], ops=[["phys", phys(0.5)], c3, ["par", False], ["init"], ["par", False], ["deinit"], ["init"], ["par", True], ["deinit"]])
    yield dict(base, pols=[7], ops=[["phys", phys(0.5)], c3, ["init"], ["read", [0], phys(0.6), [3, 22, 36]], ["par", False],
                                    ["read", [5], phys(0.4), [3, 20, 40]], ["par", False], ["deinit"]])


def run(case, res):
    z = env.load(cpu=case["cpu"], numba="absent")
    sim = P.new_sim(case, res, max_time=BOUND, max_steps=2_000_000)
    sim.busy_budget = 6_000_000
    exp = K.Expect()
    scratch = tempfile.mkdtemp(prefix="zsim_c04_")
    stage = ["start"]
    points = []
    nfault = lambda: sum(v for k, v in sim.fired.items() if k != "stall")


    def program():
        obj = K.make_obj(z, case["pols"], list if case["seq"] else None)
        st = K.State(case["pols"])
        hurt = False
        others = []
        with env.quiet():
            for op in case["ops"]:
                stage[0] = str(op)
                before = nfault()
                try:
                    if op[0] == "phys":
                        K.set_phys(obj, op[1]); st.set("phys", op[1])
                    elif op[0] == "calc":
                        obj.set_calculation_props(*op[1]); st.set("calc", op[1])
                    elif op[0] == "badphys":
                        try:
                            K.set_phys(obj, op[1])
                            st.set("phys", op[1])
                        except ValueError:
                            pass
                    elif op[0] == "badcalc":
                        try:
                            obj.set_calculation_props(*op[1])
                            st.set("calc", op[1])
                        except ValueError:
                            pass
                    elif op[0] == "size":
                        obj.kernel_size = op[1]; st.set("size", op[1])
                    elif op[0] == "init":
                        obj.initialize_parallel_workers()
                    elif op[0] == "deinit":
                        obj.deinitialize_workers()
                        if nfault() == before:
                            hurt = False
                    elif op[0] == "par":
                        k = obj.get_kernel_parallel(normalize_values=op[1])
                        exp.kernel(st, k, op[1], False, f"parallel kernel ({op})")
                        if not env.arr_eq(k, obj.kernel):
                            raise Violation("stored-kernel-differs", "the stored kernel is not the returned one")
                        res.count("parallel-kernels")
                    elif op[0] == "point":
                        if obj.airy:
                            continue               # the kernel is an analytical formula
                        d = np.hypot(op[1], op[2])*2.0*np.pi/obj.wavelength*obj.NA*obj.pixel_size
                        v = obj.get_psf_point_r_parallel(d, np.arctan2(op[1], op[2]) + np.pi)
                        points.append((st.copy(), op[1], op[2], float(v), str(op)))
                        res.count("points")
                    elif op[0] == "ser":
                        k = obj.calculate_psf_kernel(suppress_warnings=True, normalized=op[1], accelerated=False)
                        exp.kernel(st, k, op[1], False, "serial kernel between parallel ones")
                    elif op[0] == "other":
                        o, so = K.make_obj(z, op[1]), K.State(op[1])
                        others.append((o, so))
                        if len(op) > 3:
                            K.set_phys(o, op[3]); so.set("phys", op[3])
                            o.set_calculation_props(3, 20, 36); so.set("calc", [3, 20, 36])
                        if op[2]:
                            o.initialize_parallel_workers()
                    elif op[0] == "opar" and others:
                        o, so = others[op[1] % len(others)]
                        exp.kernel(so, o.get_kernel_parallel(), True, False, "parallel kernel of another object")
                        res.count("parallel-kernels")
                    elif op[0] == "odeinit" and others:
                        others[op[1] % len(others)][0].deinitialize_workers()
                    elif op[0] == "read":
                        w = K.make_obj(z, op[1])
                        K.set_phys(w, op[2]); w.set_calculation_props(*op[3])
                        w.save_json(abs_path=env.Path(scratch), overwrite=True)
                        obj.read_json(w.json_file_path)
                        st = K.State(op[1]); st.set("phys", op[2]); st.set("calc", op[3])
                    elif op[0] == "reread":
                        if obj.zernpol is None or not any(c[0] == "phys" for c in st.calls):
                            continue
                        sr = st.copy()
                        sr.pols = list(op[1])
                        w = sr.fresh(z)
                        w.save_json(abs_path=env.Path(scratch), overwrite=True)
                        obj.read_json(w.json_file_path)
                        st = sr
                except (Exception, KeyboardInterrupt) as e:
                    if isinstance(e, Violation):
                        raise
                    if nfault() == before and not hurt and not sim.fired.get("kill_self"):
                        raise Violation("unexpected-error", f"{op[0]}: {type(e).__name__}: {e}")
                    hurt = True
                    res.count("failed-calls")
                    if op[0] in ("phys", "calc", "read", "reread"):
                        return                 # whether it took effect is C12's and C08's question
            stage[0] = "exit"
            for o in [o for o, _ in others] + [obj]:
                for _ in range(3):
                    try:
                        o.deinitialize_workers()
                        break
                    except KeyboardInterrupt:
                        pass
    try:
        why = sim.run(program)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    P.finish(sim, case, res)
    e = sim.main.error
    if isinstance(e, Violation):
        raise e
    if e is not None and not isinstance(e, KeyboardInterrupt):
        raise Violation("unexpected-error", f"{stage[0]}: {type(e).__name__}: {e}")
    if why != "main-done" and nfault() == 0:
        raise Violation("never-returns", f"stage {stage[0]}: " + P.stuck_report(sim))
    exp.check(z, res)
    for st, i, j, v, where in points:
        z.reset()
        st = st.copy()
        st.set("size", 3)
        ref = K.reference(z, st, False)[1 + i, 1 + j]
        if not env.arr_close(v, ref, rtol=1e-9, atol=1e-12):
            raise Violation("wrong-point", f"{where}: point of the kernel {v}, serial computation gives {ref}")
    for o in exp.items:
        res.note("kernel", o[0].key(), np.round(o[1], 9).tolist())

"""C16: clock behaviour and verbosity never influence results."""
import json

import numpy as np

from .. import env, procsim
from ..choice import chooser_for
from ..core import Violation
from . import _pool as P
from . import _psf as K
from . import c14

ID = "C16"
LEVEL = "exploration"
RULE = "run counts as non-trivial when the clock misbehaved, reporting was on or a job was slow; distinct = distinct event-sequence hash"
QUICK_RUNS, THOROUGH_RUNS = 2400, 60000
CPUS = [2, 4, 8]
PROFILES = ["frozen", "fast", "jumps", "backwards", "allback", "slow", "calm"]
SIM_CLOCKS = ["calm", "frozen", "x1e7", "x1e-7", "jumps", "leap", "wall-back", "allback", "suspend"]


def setup():
    for c in CPUS:
        env.load(cpu=c, numba="absent")
    env.load(cpu=4, numba="pyjit")


# ------------------------------------------------------------------------------------------------------- generation
def gen_kernel_op(rng):
    n = rng.choice([1, 1, 2, 3])
    pols = []
    while len(pols) < n:
        p = list(rng.choice(c14.ORDERS[:40]))
        if p not in pols:
            pols.append(p)
    p = K.gen_phys(rng, n)
    p["type"] = "float"
    size = rng.choice([3, 3, 3, 3, 3, 3, 4, 5, 5, 9, 11, 11, 13, 17] if rng.random() < 0.85 else [11, 19, 19, 27])
    if n == 3 and size > 13:
        size = 11
    p["px"] = round(p["px"]*min(1.0, 9/size), 6)
    points = [20, 36]
    if rng.random() < 0.4:
        points = rng.choice([[120, 36], [101, 60], [150, 40], [63, 72], [320, 300], [510, 36], [40, 410]] if size <= 5 and n < 3 else [[120, 36], [101, 40], [60, 72]])
    return [pols, p, [size] + points, rng.random() < 0.6, rng.choice([None, True, False]), rng.random() < 0.5, rng.random() < 0.8, rng.choice(PROFILES)]


def gen_pool(rng):
    c = P.gen_plan(rng, max_params=8)
    c["cpu"] = rng.choice(CPUS)
    c["n_workers"] = rng.choice([None, 2, 3, 4])
    lo = P.effective_workers(c["cpu"], c["n_workers"])
    for r in c["rounds"]:
        r["n"] = lo + rng.randrange(0, 6)
    c["verbose"] = rng.random() < 0.6
    if rng.random() < 0.03:                     # long vectors: the reported percentages get rounded
        for r in c["rounds"][:1]:
            r["n"] = rng.randrange(200, 420)
        del c["rounds"][2:]
        c["flav"], c["verbose"] = "int", rng.random() < 0.8
        c["timing"] = P.gen_timing(rng)
        return dict(c, durs=P.DURSETS[rng.choice(["zero", "short"])], drag=0.0, faults=[], clock=rng.choice(SIM_CLOCKS))
    c["timing"] = P.gen_timing(rng)
    c["timing"]["start_delay"] = rng.choice([0.0, 0.0, 0.05, 1.0, 30.0])
    c["faults"] = []
    r = rng.random()
    if r < 0.35:
        c["durs"], c["drag"] = P.DURSETS[rng.choice(["zero", "short", "mixed", "long"])], 0.0
    elif r < 0.5:
        c["durs"], c["drag"] = rng.choice([[0.1, 0.4], [0.7], [1.5, 0.0]]), 0.0
    elif r < 0.53:
        c["durs"], c["drag"] = [0.0, 0.0, 0.0, 8.0], 0.0
    else:                                       # overloaded machine: every pause lasts long, jobs take hours
        c["durs"], c["drag"] = rng.choice([[40.0], [700.0, 4000.0], [7200.0, 0.0, 10.0], [90000.0], [1e6, 5.0]]), rng.choice([0.5, 3.0, 60.0])
        if max(c["durs"]) > 5000:
            c["drag"] = max(c["drag"], max(c["durs"])/400)
        c["timing"]["start_delay"] = rng.choice([0.0, 5.0, 300.0])
        if rng.random() < 0.5:
            c["timing"]["feeder"] = "glacial"
            c["drag"] = max(c["drag"], 10.0)
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2])):
            c["faults"].append({"kind": "stall", "task": "P", "where": "before", "op": rng.randrange(0, 200), "dur": rng.choice([1.0, 60.0, 3600.0, 1e6])})
    if rng.random() < 0.3:
        c["faults"].append({"kind": "stall", "task": f"W{rng.randrange(3)}", "where": "before", "op": rng.randrange(0, 30), "dur": rng.choice([0.3, 1.0]) if not c["drag"] else 100*c["drag"]})
    c["clock"] = rng.choice(SIM_CLOCKS)
    return c


def gen(rng, idx):
    r = rng.random()
    if r < 0.3:
        return {"what": "kernel", "calls": [gen_kernel_op(rng) for _ in range(rng.randrange(1, 4))], "numba": rng.choice(["absent", "pyjit"]), "faults": [],
                "force": rng.random() < 0.05}
    if r < 0.92:
        return dict(gen_pool(rng), what="pool")
    pols = [rng.choice([1, 4, 5, 7, 8, 12])]
    drag = rng.choice([0.0, 0.0, 0.05, 900.0])
    timing = P.gen_timing(rng)
    if drag > 1 and rng.random() < 0.5:
        timing["feeder"] = "glacial"
    return {"what": "parallel", "cpu": rng.choice([4, 8]), "pols": pols, "phys": [K.gen_phys(rng, 1) for _ in range(2)], "timing": timing,
            "clock": rng.choice(SIM_CLOCKS), "faults": [] if rng.random() < 0.5 else
            [{"kind": "stall", "task": "P", "where": "before", "op": rng.randrange(0, 2000), "dur": rng.choice([1.0, 3600.0, 1e6])}], "drag": drag}


def directed():
    for prof in PROFILES:
        for size in (3, 11, 19):
            for n in (1, 2):
                pols = [[1, 3], [0, 4]][:n]
                p = {"NA": 0.1, "wl": 0.5, "px": 0.4, "a": 0.2 if n == 1 else [0.2, -0.1], "type": "float"}
                yield {"what": "kernel", "numba": "pyjit", "faults": [], "force": False, "seed": 1,
                       "calls": [[pols, p, [size, 20, 36], True, acc, False, True, prof] for acc in (True, False)]}
    for prof in PROFILES:
        for points in ([120, 36], [320, 300]):
            p = {"NA": 0.1, "wl": 0.5, "px": 0.4, "a": 0.2, "type": "float"}
            for pols, a in ([[[1, 3]], 0.2], [[[0, 0]], 0.2], [[[1, 3], [2, 2]], [0.2, 0.1]]):
                yield {"what": "kernel", "numba": "pyjit", "faults": [], "force": False, "seed": 1,
                       "calls": [[pols, dict(p, a=a), [3] + points, True, acc, False, True, prof] for acc in (True, False)]}
    base = {"what": "pool", "cpu": 4, "n_workers": 2, "flav": "int", "pflav": "int", "faults": [], "seed": 1, "rounds": [{"update": False, "n": 5}, {"update": True, "n": 4}]}
    for clk in SIM_CLOCKS:
        for verbose in (True, False):
            t = {"profile": "tight", "feeder": "tight", "start_delay": 0.0}
            yield dict(base, clock=clk, verbose=verbose, durs=[1e-3], drag=0.0, timing=t)
            yield dict(base, clock=clk, verbose=verbose, durs=[3600.0, 7200.0], drag=10.0, timing=dict(t, start_delay=100.0))
            yield dict(base, clock=clk, verbose=verbose, durs=[0.01], drag=0.0, timing=t, faults=[{"kind": "stall", "task": "P", "where": "before", "op": 60, "dur": 1e5}])


# ------------------------------------------------------------------------------------------------------- clocks
def sim_clock(kind):
    st = {"n": 0, "off": 0.0}

    def read(sim, which):
        t = sim.now
        st["n"] += 1
        wall = which in ("time", "time_ns")
        if kind == "frozen":
            t = 0.0
        elif kind == "x1e7":
            t *= 1e7
        elif kind == "x1e-7":
            t *= 1e-7
        elif kind == "jumps":
            st["off"] += [0.0, 1.0, 1e5, 1e9][sim.ch.pick(4)]
            t += st["off"]
        elif kind == "leap":
            st["off"] += 86400.0
            t += st["off"]
        elif kind == "wall-back" and wall or kind == "allback":
            st["off"] -= [0.0, 1.0, 1e4][sim.ch.pick(3)]
            t += st["off"]
        elif kind == "suspend":
            t += 1e6 if st["n"] > 2 else 0.0
        return 1_000_000.0 + t
    return read


# ------------------------------------------------------------------------------------------------------- running
def run(case, res):
    {"kernel": run_kernel, "pool": run_pool, "parallel": run_parallel}[case["what"]](case, res)


def run_kernel(case, res):
    z2 = env.load(cpu=8, numba="absent")
    z = env.load(cpu=4, numba=case["numba"])
    ch = chooser_for(case)
    objs = {}
    try:
        for n, (pols, phys, calc, norm, acc, suppress, verbose, prof) in enumerate(case["calls"]):
            where = f"call {n} {json.dumps([pols, calc, norm, acc, suppress, verbose])} with clock {prof}, numba: {case['numba']}"
            clock = procsim.SimClock(prof, ch)
            key = json.dumps([pols, phys, calc])
            with env.quiet():
                ref = c14.reference(z2, [pols, phys, calc], norm, case["numba"] == "pyjit" and acc is not False)
                if key not in objs:
                    objs[key] = c14.build(z, pols, phys, calc)
                with procsim.use_clock(clock):
                    try:
                        if case["force"] and n == 0:
                            z.pkg.force_get_psf_compilation(verbose)
                        k = objs[key].calculate_psf_kernel(suppress_warnings=suppress, normalized=norm, verbose_info=verbose, accelerated=acc)
                    except Exception as e:
                        raise Violation("fails", f"{where}: {type(e).__name__}: {e}")
            c14.compare(res, k, ref, where, 1e-7)
            res.note("kernel", n, prof, clock.reads, verbose)
            if prof != "calm":
                res.count(f"fault:clock-{prof}")
            res.simtime += max(0.0, min(1e9, clock.now - 1_000_000.0))
            if verbose or prof != "calm":
                res.nontrivial = True
    finally:
        z2.reset()
        res.choices = ch.record


def pool_sim(case, res):
    sim = P.new_sim(case, res, max_time=1e15, max_steps=3_000_000, clock=sim_clock(case["clock"]))
    sim.busy_budget = 6_000_000
    sim.drag = case["drag"]
    if case["clock"] != "calm":
        res.count(f"fault:clock-{case['clock']}")
    if case["drag"]:
        res.count("fault:overloaded-machine")
    return sim


def ended(sim, case, res, stage, why):
    P.finish(sim, case, res)
    e = sim.main.error
    if isinstance(e, Violation):
        raise e
    if e is not None:
        raise Violation("fails", f"{stage[0]} with clock {case['clock']}: {type(e).__name__}: {e}")
    if why != "main-done":
        raise Violation("never-returns", f"{stage[0]} with clock {case['clock']}: " + P.stuck_report(sim))


def run_pool(case, res):
    z = env.load(cpu=case["cpu"], numba="absent")
    sim = pool_sim(case, res)
    log, stage = [], ["create"]
    job = P.Job("A", case["flav"], log, case["durs"])

    def program():
        with env.quiet():
            params = P.make_params(case["pflav"], case["rounds"][0]["n"], 1)
            kw = {} if case["n_workers"] is None else {"n_workers": case["n_workers"]}
            m = z.DispenserManager(compute_func=job, params_list=params, verbose_info=case["verbose"], **kw)
            for r, rd in enumerate(case["rounds"]):
                stage[0] = f"compute {r}"
                if r > 0 and rd["update"]:
                    params = P.make_params(case["pflav"], rd["n"], r + 1)
                    m.update_params(params)
                P.check_results(job, params, m.compute(), f"round {r} with clock {case['clock']}, verbose {case['verbose']}")
                res.count("results", len(params))
            stage[0] = "close"
            m.close()
    ended(sim, case, res, stage, sim.run(program))
    if max(case["durs"]) >= 10:
        res.count("fault:slow-jobs")


def run_parallel(case, res):
    z = env.load(cpu=case["cpu"], numba="absent")
    sim = pool_sim(case, res)
    exp, stage = K.Expect(), ["init"]

    def program():
        with env.quiet():
            obj = K.make_obj(z, case["pols"])
            st = K.State(case["pols"])
            obj.initialize_parallel_workers()
            for n, p in enumerate(case["phys"]):
                stage[0] = f"kernel {n}"
                K.set_phys(obj, p); st.set("phys", p)
                c = [3, 20, 36]
                obj.set_calculation_props(*c); st.set("calc", c)
                exp.kernel(st, obj.get_kernel_parallel(normalize_values=n == 0), n == 0, False, f"parallel kernel {n} with clock {case['clock']}")
            stage[0] = "close"
            obj.deinitialize_workers()
    ended(sim, case, res, stage, sim.run(program))
    exp.check(z, res)

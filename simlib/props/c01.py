"""C01: pool results are exact, ordered, each parameter evaluated exactly once."""
from collections import Counter

from .. import env, procsim
from ..core import Violation
from . import _pool as P

ID = "C01"
LEVEL = "exploration"
RULE = "run counts as non-trivial when at least two worker processes executed; distinct = distinct event-sequence hash"
QUICK_RUNS, THOROUGH_RUNS = 6000, 120000


def setup():
    for c in P.CPUS:
        env.load(cpu=c, numba="absent")


def gen(rng, idx):
    c = P.gen_plan(rng)
    if rng.random() < 0.35:          # the next vector has the length of the previous one
        for a, b in zip(c["rounds"], c["rounds"][1:]):
            b["update"], b["n"] = True, a["n"]
    if idx % 60 == 7:                # long vectors: progress percentages get rounded, queues stay full
        c["verbose"], c["durset"] = rng.random() < 0.7, rng.choice(["zero", "short"])
        c["rounds"] = c["rounds"][:2]
        for rd in c["rounds"]:
            rd["n"] = rng.randrange(200, 420)
        if c["flav"] == "big":
            c["flav"] = "tuple"
    c["timing"] = P.gen_timing(rng)
    c["faults"] = P.gen_stalls(rng)
    for rd in c["rounds"]:
        rd["idle"] = rng.choice([0.0, 0.0, 0.0, 1.0, 10.0, 1e3, 1e5])     # the program does something else before this round
        rd["mutate"] = rng.choice([None]*7 + P.MUTATIONS)
        rd["refused"] = rng.choice([None]*8 + ["empty", "short", "none", "int"])
    c["drag"] = 0.0
    if idx % 12 == 5 and idx % 60 != 7:   # overloaded machine: all pauses last long, also those of the processes that wait for each other
        c["durset"] = rng.choice(["short", "hours", "hours", "minutes"])
        c["drag"] = rng.choice([0.5, 3.0, 20.0]) if c["durset"] != "hours" else rng.choice([20.0, 60.0])
        c["timing"]["start_delay"] = rng.choice([0.0, 5.0, 300.0])
        if rng.random() < 0.6:
            c["timing"]["feeder"], c["drag"] = "glacial", max(10.0, c["drag"])
        for f in c["faults"]:
            f["dur"] *= rng.choice([1.0, 1e2, 1e4])
    return c


def directed():
    for n_workers, n in ((2, 1500), (4, 1100), (None, 257)):
        yield {"cpu": 8, "n_workers": n_workers, "rounds": [{"update": False, "n": n, "idle": 0.0, "refused": None}, {"update": True, "n": 9, "idle": 0.0, "refused": None}],
               "flav": "int", "pflav": "int", "verbose": True, "durset": "zero", "timing": {"profile": "tight", "feeder": "tight", "start_delay": 0.0},
               "faults": [], "drag": 0.0, "seed": 1}


def run(case, res):
    z = env.load(cpu=case["cpu"], numba="absent")
    sim = P.new_sim(case, res, max_time=1e12, max_steps=3_000_000 if case["drag"] else 300_000)
    if case["drag"]:
        sim.busy_budget = 6_000_000
        sim.drag = case["drag"]
        res.count("fault:overloaded-machine")
    log = []
    job = P.Job("A", case["flav"], log, P.DURSETS[case["durset"]])
    out = {}

    def program():
        with env.quiet():
            params = P.make_params(case["pflav"], case["rounds"][0]["n"], 1)
            kw = {} if case["n_workers"] is None else {"n_workers": case["n_workers"]}
            m = z.DispenserManager(compute_func=job, params_list=params, verbose_info=case["verbose"], **kw)
            old = []
            for r, rd in enumerate(case["rounds"]):
                if r > 0 and rd["update"]:
                    params = P.make_params(case["pflav"], rd["n"], r + 1)
                    m.update_params(params)
                if rd["idle"]:
                    procsim.ACTIVE.sleep(rd["idle"])
                    if rd["idle"] >= 10:
                        res.count("fault:idle-program")
                if rd["refused"]:               # a refused replacement leaves the parameters in force
                    bad = {"empty": [], "short": P.make_params(case["pflav"], 1, 77), "none": None, "int": 7}[rd["refused"]]
                    try:
                        m.update_params(bad)
                    except Exception:
                        res.count("refused-updates")
                    else:
                        if isinstance(bad, list):
                            params = bad
                before = len(log)
                was = None
                if rd.get("mutate"):
                    was = P.mutate(params, rd["mutate"], P.effective_workers(case["cpu"], case["n_workers"]))
                    res.count("changed-in-place")
                results = m.compute()
                if was is not None:
                    mine, params = params, P.which(job, was, params, results, Counter(k for _, k in log[before:]))
                P.check_results(job, params, results, f"round {r}")
                for r0, p0, res0 in old:
                    P.check_results(job, p0, res0, f"results of round {r0} seen after round {r}")
                done = Counter(k for _, k in log[before:])
                want = Counter(P.pkey(p) for p in params)
                if done != want:
                    raise Violation("not-exactly-once", f"round {r}: {(done - want)} extra, {(want - done)} missing")
                res.count("results", len(params))
                old.append((r, list(params), results))
                if was is not None:
                    params = mine
            m.close()
        out["ok"] = True
    why = sim.run(program)
    P.finish(sim, case, res)
    if sim.main.error is not None:
        e = sim.main.error
        if isinstance(e, Violation):
            raise e
        raise Violation("unexpected-error", f"{type(e).__name__}: {e}")
    if why != "main-done":
        raise Violation("never-returns", P.stuck_report(sim))
